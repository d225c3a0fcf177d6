// C19 (stop and start), C20 (stanza-create, stanza-upgrade and stanza-delete)
#include "prop_more.h"
#include <algorithm>

namespace sim {

typedef std::vector<std::string> Args;
static const std::string ST = "--stanza=demo";
std::string stanzaTree(Run &run, int r, const std::string &stanza)
{
    return fsHashTree(run.repoHost(r), run.repoPath(r) + "/archive/" + stanza, false) + "\n--\n" + fsHashTree(run.repoHost(r), run.repoPath(r) + "/backup/" + stanza, false);
}
static std::map<int, std::string> trees(Run &run, const std::string &stanza) { std::map<int, std::string> m; for (int r = 1; r <= run.repos; r++) m[r] = stanzaTree(run, r, stanza); return m; }
static std::string diffTree(const std::string &a, const std::string &b)
{
    std::set<std::string> x, y; for (int k = 0; k < 2; k++) { const std::string &t = k ? b : a; size_t i = 0; while (i < t.size()) { size_t e = t.find('\n', i); if (e == std::string::npos) e = t.size(); (k ? y : x).insert(t.substr(i, e - i)); i = e + 1; } }
    for (auto &l : x) if (!y.count(l)) return "lost/changed: " + l; for (auto &l : y) if (!x.count(l)) return "added: " + l; return "";
}

// A second stanza for the same cluster with a name that resembles the first
void siblingSetup(Run &run, const std::string &sib)
{
    run.vars["sib"] = sib;
    for (auto h : W->hosts) {
        std::string c; if (!fsRead(h, "/etc/pgbackrest/pgbackrest.conf", c)) continue;
        size_t k = c.rfind("[demo]"); fsWrite(h, "/etc/pgbackrest/pgbackrest.conf", c + "[" + sib + c.substr(k + 5), 0, 0, 0644);
        fsSyncTree(h, "/etc/pgbackrest");
    }
    CmdRes r = run.quiet(run.repoHost(1), {"--stanza=" + sib, "stanza-create"});
    if (!r.ok()) { run.fail("sibling", "stanza-create of stanza " + sib + fmt(" failed rc=%d: ", r.rc) + r.why()); return; }
    for (int k = 1; k <= run.repos; k++) {
        r = run.quiet(run.repoHost(k), {"--stanza=" + sib, "backup", "--repo=" + S(k), "--type=full", "--no-archive-check"});
        if (!r.ok()) run.fail("sibling", "backup of stanza " + sib + fmt(" failed rc=%d: ", r.rc) + r.why());
    }
}
static std::vector<std::string> ready(Run &run) { std::vector<std::string> v; for (auto &f : fsList(run.hp, run.pg->walDir() + "/archive_status")) if (f.size() > 6 && f.compare(f.size() - 6, 6, ".ready") == 0) v.push_back(f.substr(0, f.size() - 6)); std::sort(v.begin(), v.end()); return v; }

//---------------------------------------------------------------------------------------------------------------------------------
static int hardFaults() { int n = 0; for (auto &f : W->faults) if (f.kind != FK_STALL) n += f.fired; return n; }   // anything but a delay
static void stopTest(Run &run, int i, const Op &op)
{
    Pg *g = run.pg; Rng x((uint64_t)op.n("xseed") + 71);
    std::string sib = run.vars.count("sib") ? run.vars["sib"] : ""; bool all = op.n("all"), force = op.n("force");
    std::vector<Host *> where; if (op.n("where", 1) & 1) where.push_back(run.hp); if ((op.n("where", 1) & 2) && run.hr) where.push_back(run.hr); if (where.empty()) where.push_back(run.hp);
    auto isStopped = [&](std::initializer_list<Host *> hs) { for (auto h : hs) if (std::find(where.begin(), where.end(), h) != where.end()) return true; return false; };
    int repo = (int)x.range(1, run.repos); Host *rh = run.repoHost(repo); int f0 = hardFaults();
    std::string scopeName = all ? "all stanzas" : "stanza demo";

    // Something is running when stop is called
    if (op.n("act")) { g->startActivity(); g->archOp = i; }
    Proc *bg = nullptr; std::string bk = op.s("bg"); bool bgSib = bk.compare(0, 3, "sib") == 0 && !sib.empty();
    if (bk == "sibbackup" && bgSib) bg = run.start(rh, {"--stanza=" + sib, "backup", "--repo=" + S(repo), "--type=" + rtype(x), "--no-archive-check"}, "/", i);
    else if (bk == "sibexpire" && bgSib) bg = run.start(rh, {"--stanza=" + sib, "expire", "--repo=" + S(repo)}, "/", i);
    else if (bk == "backup") bg = run.start(rh, {ST, "backup", "--repo=" + S(repo), "--type=" + rtype(x)}, "/", i);
    else if (bk == "expire") bg = run.start(rh, {ST, "expire", "--repo=" + S(repo)}, "/", i);
    else if (bk == "upgrade") bg = run.start(run.repoHost(1), {ST, "stanza-upgrade"}, "/", i);
    std::set<std::string> bkBefore; if (bk == "backup") bkBefore = run.completed[repo];
    runUntil([bg] { return bg && bg->exited; }, op.n("delay", 1000) + 1);

    bool retried = false;
    for (auto h : where) {
        Args a = {"stop"}; if (!all) a.push_back(ST); if (force) a.push_back("--force");
        CmdRes r = run.cmd(h, a, "/", i);
        if (!r.ok()) {
            if (hardFaults() == f0) { run.fail("stop", fmt("stop failed rc=%d: ", r.rc) + r.why()); return; }
            force = false; retried = true; W->faultsOn = false; Args b = {"stop"}; if (!all) b.push_back(ST); r = run.quiet(h, b);
            if (!r.ok()) { run.fail("stop", fmt("stop failed without faults rc=%d: ", r.rc) + r.why()); return; }
        }
    }
    usec T = W->now; int f1 = hardFaults(); run.probe(force ? "stop-force" : "stop"); if (bg && !bg->exited) run.probe("stop-while-" + bk);
    bool bgStopped = bg && (bgSib ? all : true) && (bk == "expire" || bk == "sibexpire" ? isStopped({rh}) : bk == "upgrade" ? isStopped({run.repoHost(1), run.hp}) : isStopped({rh, run.hp}));
    if (bg) {
        if (force && bgStopped && f1 == f0) {
            usec lim = 8000000; for (auto &f : W->faults) lim += f.fired * f.arg;
            std::string ex = fmt("--exec-id=%d-", bg->pid);         // on a host that was stopped: the main process or the remote that holds the lock
            auto left = [&]() -> Proc * { for (auto &kv : W->procs) { Proc *q = kv.second; if (q->exited || q->startAt > T || !isStopped({q->host})) continue; if (q == bg) return q; bool p0 = false; for (auto &w : q->argv) if (w == "--process=0") p0 = true; if (p0) for (auto &w : q->argv) if (w.find(":remote") != std::string::npos) for (auto &v : q->argv) if (v.compare(0, ex.size(), ex) == 0) return q; } return nullptr; };
            runUntil([&] { return !left(); }, lim);
            if (Proc *q = left()) if (hardFaults() == f0) { run.fail("force", "stop --force of " + scopeName + " returned but the running " + bk + fmt(" (%s) did not end within %lld s", q->role.c_str(), (long long)(lim / 1000000))); return; }
            run.probe("forced");
        }
        CmdRes r = run.wait(bg, 1200000000ll);
        if (run.bad()) return;
        if (hardFaults() == f0 && r.done) {
            if (!bgStopped && !r.ok() && bk.find("backup") == std::string::npos && r.rc != 62 && r.rc != 50 && !(bk == "upgrade" && op.n("act"))) { run.fail("others", fmt("a running %s that stop%s of %s does not concern failed rc=%d sig=%d: ", bk.c_str(), force ? " --force" : "", scopeName.c_str(), r.rc, r.sig) + r.why()); return; }
            if (!force && (r.rc == 63 || r.sig)) { run.fail("others", fmt("stop without --force ended the running %s (rc=%d sig=%d): ", bk.c_str(), r.rc, r.sig) + r.why()); return; }
            if (bgSib && !all && !r.ok()) { run.fail("others", fmt("stop%s of stanza demo made the running %s of stanza %s fail (rc=%d sig=%d): ", force ? " --force" : "", bk.c_str(), sib.c_str(), r.rc, r.sig) + r.why()); return; }
        }
        if (bk == "backup" && r.ok()) { for (auto &b : run.info(repo).backups) run.completed[repo].insert(b.label); }
    }
    g->stopActivity(); g->archOp = -1;
    run.noFaults(); for (auto &kv : W->procs) kv.second->stallUntil = 0;
    g->archiverOn = false; run.settle(900000000ll); if (aliveCount()) { run.probe("killed-leftover"); for (auto h : W->hosts) killHost(h); } W->stuckWhy.clear();
    g->archiverOn = true; g->archiverKick();
    if (op.n("power") && !retried) run.powerAll((uint64_t)op.n("xseed"), (int)x.range(1, 3));

    // From here on nothing of the stopped stanza changes
    auto before = trees(run, "demo"); std::set<std::string> acked = g->acked;
    auto refused = [&](const CmdRes &r, const std::string &what, const std::string &stz, const std::map<int, std::string> &was) {
        if (run.bad()) return;
        if (!r.done) { run.fail("refused", what + " did not return after stop"); return; }
        if (r.ok()) { run.fail("refused", what + " of stanza " + stz + " returned success after stop of " + scopeName + ": " + r.all().substr(0, 400)); return; }
        if (r.all().find("stop file exists") == std::string::npos && r.rc != 62 && r.all().find("unable to acquire lock") == std::string::npos) { run.fail("refused", what + fmt(" of stanza %s after stop does not report the stop but rc=%d: ", stz.c_str(), r.rc) + r.why()); return; }
        auto now = trees(run, stz); for (auto &kv : was) if (now[kv.first] != kv.second) run.fail("changed", what + fmt(" after stop changed stanza %s in repo%d: ", stz.c_str(), kv.first) + diffTree(kv.second, now[kv.first]));
        run.probe("refused-" + what);
    };
    auto tryAll = [&](int count, const std::string &stz, const std::map<int, std::string> &was) {
        std::string sa = "--stanza=" + stz;
        for (int k = 0; k < count && !run.bad(); k++) {
            std::string what = pick(x, {"backup", "expire", "push", "push", "stanza-create", "stanza-upgrade"}); repo = (int)x.range(1, run.repos); rh = run.repoHost(repo);
            if (what == "backup" && isStopped({rh, run.hp})) refused(run.quiet(rh, {sa, "backup", "--repo=" + S(repo), "--type=" + rtype(x)}), what, stz, was);
            else if (what == "expire" && isStopped({rh})) refused(run.quiet(rh, {sa, "expire", "--repo=" + S(repo)}), what, stz, was);
            else if (what == "push" && isStopped({rh, run.hp})) {
                g->writePage(g->pickRel(), 0); std::string s = g->switchWal();
                refused(run.quiet(run.hp, {sa, "archive-push", "--archive-timeout=5", x.chance(0.3) ? x.chance(0.5) ? "--archive-async" : "--no-archive-async" : "--compress-type=none", g->walDir() + "/" + s}, g->data), what, stz, was);
            }
            else if (what.compare(0, 6, "stanza") == 0 && isStopped({run.repoHost(1), run.hp})) refused(run.quiet(run.repoHost(1), {sa, what}), what, stz, was);
        }
    };
    tryAll(3, "demo", before); if (run.bad()) return;
    if (!sib.empty()) {                                             // the other stanza
        auto sw = trees(run, sib);
        if (all) tryAll(1, sib, sw);
        else {
            auto rd = ready(run); if (rd.empty()) { g->writePage(g->pickRel(), 0); g->switchWal(); rd = ready(run); }
            CmdRes r = rd.empty() ? CmdRes() : run.quiet(run.hp, {"--stanza=" + sib, "archive-push", "--no-archive-async", g->walDir() + "/" + rd[0]}, g->data);
            if (!rd.empty() && !r.ok()) { run.fail("others", fmt("archive-push of stanza %s failed after stop of stanza demo rc=%d: ", sib.c_str(), r.rc) + r.why()); return; }
            Args a = {"--stanza=" + sib, x.chance(0.5) ? "expire" : "backup", "--repo=" + S(repo)}; if (a[1] == "backup") a.push_back("--no-archive-check");
            r = run.quiet(rh, a); if (!r.ok()) { run.fail("others", fmt("%s of stanza %s failed after stop of stanza demo rc=%d: ", a[1].c_str(), sib.c_str(), r.rc) + r.why()); return; }
            run.probe("sibling-works");
        }
    }
    // Reading still works
    RepoInfo ri = run.info(repo); if (!ri.ok) { run.fail("read", "info failed after stop: " + ri.raw.substr(0, 400)); return; }
    if (x.chance(0.4) && !run.completed[repo].empty()) {
        g->archiverOn = false; runUntil([g] { return !g->pusher; }, 600000000ll); run.settle();
        auto v = std::vector<std::string>(run.completed[repo].begin(), run.completed[repo].end());
        std::string e = run.restoreAndCheck(v[x.below(v.size())], repo, "restore after stop", false); if (!e.empty()) { run.fail("read", e); return; }
        g->archiverOn = true; g->archiverKick(); run.probe("restore-while-stopped");
    }
    run.sleepFor(2000000);
    { auto now = trees(run, "demo"); for (auto &kv : before) if (now[kv.first] != kv.second) { run.fail("changed", fmt("repo%d changed after stop: ", kv.first) + diffTree(kv.second, now[kv.first])); return; } }
    if (isStopped({run.hp, run.repoHost(1)})) for (auto &s : g->acked) if (!acked.count(s) && before[1].find("/" + s) == std::string::npos) { run.fail("refused", "WAL " + s + " was reported archived after stop"); return; }
    // Starting another scope does not start this one
    if (x.chance(0.4)) {
        for (auto h : where) run.quiet(h, all ? Args{ST, "start"} : sib.empty() ? Args{"start"} : Args{"--stanza=" + sib, "start"});
        tryAll(2, "demo", before); if (run.bad()) return;
    }
    for (auto h : where) { Args a = {"start"}; if (!all) a.push_back(ST); CmdRes r = run.quiet(h, a); if (!r.ok()) { run.fail("start", fmt("start failed rc=%d: ", r.rc) + r.why()); return; } fsSyncTree(h, "/tmp/pgbackrest"); }   // that start survives a power loss is not promised
    g->archiverOn = true; g->archiverKick();
    if (!run.drainWal(900000000ll)) { run.fail("start", "WAL is not archived after start: " + g->lastPushErr.substr(0, 500)); return; }
    for (auto &f : ready(run)) { run.fail("start", "WAL " + f + " not archived after start"); return; }
    CmdRes r = run.quiet(rh, {ST, "backup", "--repo=" + S(repo), "--type=" + rtype(x)});
    if (!r.ok()) { run.fail("start", fmt("backup failed after start rc=%d: ", r.rc) + r.why()); return; }
    for (auto &b : run.info(repo).backups) run.completed[repo].insert(b.label);
    for (auto h : where) for (auto &f : fsList(h, "/tmp/pgbackrest")) if (f.size() > 5 && f.compare(f.size() - 5, 5, ".stop") == 0) run.fail("start", "stop file " + f + " left after start");
    run.probe("stop-start");
}

//---------------------------------------------------------------------------------------------------------------------------------
static std::vector<std::string> infoFiles(Run &run, int r, int which)
{
    std::string a = run.repoPath(r) + "/archive/demo/archive.info", b = run.repoPath(r) + "/backup/demo/backup.info"; std::vector<std::string> v;
    if (which & 1) v.push_back(a); if (which & 2) v.push_back(a + ".copy"); if (which & 4) v.push_back(b); if (which & 8) v.push_back(b + ".copy"); return v;
}
static void works(Run &run, const std::string &why, int repo)
{
    Pg *g = run.pg; g->archiverOn = true; g->archiverKick(); g->writePage(g->pickRel(), 0); std::string s = g->switchWal();
    if (!run.drainWal(900000000ll)) { run.fail("works", why + ": WAL is not archived: " + g->lastPushErr.substr(0, 500)); return; }
    for (int k = 1; k <= run.repos; k++) for (auto &f : infoFiles(run, k, 15)) if (!fsExists(run.repoHost(k), f)) { run.fail("works", why + ": " + f + " does not exist"); return; }
    CmdRes r = run.quiet(run.repoHost(repo), {ST, "backup", "--repo=" + S(repo), "--type=full"});
    if (!r.ok()) { run.fail("works", why + fmt(": backup failed rc=%d: ", r.rc) + r.why()); return; }
    RepoInfo ri = run.info(repo); for (auto &b : ri.backups) run.completed[repo].insert(b.label);
    if (!ri.ok || ri.backups.empty()) { run.fail("works", why + ": backup is not listed: " + ri.raw.substr(0, 300)); return; }
    r = run.quiet(run.hp, {ST, "check"}); if (!r.ok()) run.fail("works", why + fmt(": check failed rc=%d: ", r.rc) + r.why());
}
static void siblingSame(Run &run, const std::string &why, std::map<int, std::string> &was)
{
    if (!run.vars.count("sib") || run.bad()) return;
    auto now = trees(run, run.vars["sib"]); for (auto &kv : was) if (now[kv.first] != kv.second) { run.fail("sibling", why + " of stanza demo changed stanza " + run.vars["sib"] + fmt(" in repo%d: ", kv.first) + diffTree(kv.second, now[kv.first])); return; }
}
static CmdRes deleteStanza(Run &run, int i, int repo, bool forced, bool faults)
{
    Host *h = run.repoHost(repo); Args a = {ST, "stanza-delete", "--repo=" + S(repo)}; if (forced) a.push_back("--force");
    return faults ? run.cmd(h, a, "/", i) : run.quiet(h, a);
}

static void scCreate(Run &run, int i, const Op &op)
{
    int f0 = run.faultsFired(); Rng x((uint64_t)op.n("xseed") + 5); auto sw = run.vars.count("sib") ? trees(run, run.vars["sib"]) : std::map<int, std::string>();
    CmdRes r = run.cmd(run.repoHost(1), {ST, "stanza-create"}, "/", i);
    if (!r.ok() && run.faultsFired() == f0) { run.fail("create", fmt("stanza-create failed rc=%d: ", r.rc) + r.why()); return; }
    run.heal(); run.settle(); if (op.n("power")) run.powerAll((uint64_t)op.n("xseed"), 3);
    siblingSame(run, "stanza-create", sw); if (run.bad()) return;
    auto t1 = trees(run, "demo"); CmdRes r2 = run.quiet(run.repoHost(1), {ST, "stanza-create"}); auto t2 = trees(run, "demo");
    if (r.ok()) {
        if (!r2.ok()) { run.fail("create", fmt("stanza-create succeeded but the next one fails rc=%d: ", r2.rc) + r2.why()); return; }
        for (auto &kv : t1) if (t2[kv.first] != kv.second) { run.fail("create", fmt("repeated stanza-create changed repo%d: ", kv.first) + diffTree(kv.second, t2[kv.first])); return; }
        run.probe("create-ok");
    } else if (!r2.ok()) {                                          // refuses an incomplete stanza: delete and create again
        run.probe("create-refused");
        for (int k = 1; k <= run.repos; k++) {
            if (t1[k] == t2[k]) continue;
            // a repository after the one that is refused is not touched, one before it may have been completed
            bool complete = true; for (auto &f : infoFiles(run, k, 15)) if (!fsExists(run.repoHost(k), f)) complete = false;
            if (!complete) { run.fail("create", fmt("refused stanza-create changed repo%d: ", k) + diffTree(t1[k], t2[k])); return; }
        }
        CmdRes s = run.quiet(run.repoHost(1), {ST, "stop"}); if (!s.ok()) { run.fail("create", "stop failed: " + s.why()); return; }
        for (int k = 1; k <= run.repos; k++) {
            if (!fsExists(run.repoHost(1), "/tmp/pgbackrest/demo.stop")) run.quiet(run.repoHost(1), {ST, "stop"});
            s = deleteStanza(run, i, k, true, false); if (!s.ok()) { run.fail("create", fmt("stanza-delete of an incomplete stanza in repo%d failed rc=%d: ", k, s.rc) + s.why()); return; }
        }
        run.quiet(run.repoHost(1), {ST, "start"});
        s = run.quiet(run.repoHost(1), {ST, "stanza-create"}); if (!s.ok()) { run.fail("create", fmt("stanza-create after stanza-delete failed rc=%d: ", s.rc) + s.why()); return; }
    } else run.probe("create-repeated");
    works(run, "after stanza-create", (int)x.range(1, run.repos));
    siblingSame(run, "stanza-create", sw);
}

static void scGuard(Run &run, int, const Op &op)
{
    Rng x((uint64_t)op.n("xseed") + 9); int repo = (int)x.range(1, run.repos); Host *h = run.repoHost(repo); std::string k = op.s("what");
    run.drainWal(); run.waitArchiver(); run.pg->archiverOn = false;
    int mask = k == "none" ? 15 : k == "archive" ? 3 : k == "backup" ? 12 : 1 << x.below(4); if (k == "copies") mask = pick(x, {"a", "b"}) == "a" ? 5 : 10;
    if (k != "mismatch") {
        std::map<std::string, std::pair<std::string, unsigned>> save;
        for (auto &f : infoFiles(run, repo, mask)) { std::string d; if (fsRead(h, f, d)) { save[f] = {d, fsLookup(h, f)->mode}; fsUnlink(h, f); } }
        auto t1 = trees(run, "demo"); CmdRes r = run.quiet(run.repoHost(1), {ST, "stanza-create"}); auto t2 = trees(run, "demo");
        bool must = k == "none" || k == "archive" || k == "backup";
        bool empty = fsList(h, run.repoPath(repo) + "/archive/demo").empty() && fsList(h, run.repoPath(repo) + "/backup/demo").empty();
        if (must && !(k == "none" && empty)) {
            if (r.ok()) { run.fail("guard", "stanza-create succeeded although " + (k == "none" ? "backups or WAL" : std::string("only one of archive.info and backup.info")) + fmt(" exist in repo%d", repo)); return; }
            for (int q = 1; q <= run.repos; q++) if (t1[q] != t2[q]) { run.fail("guard", fmt("refused stanza-create changed repo%d: ", q) + diffTree(t1[q], t2[q])); return; }
        } else if (!must) {
            if (!r.ok()) { run.fail("guard", fmt("stanza-create with one copy of an info file missing failed rc=%d: ", r.rc) + r.why()); return; }
            for (auto &f : infoFiles(run, repo, 15)) if (!fsExists(h, f)) { run.fail("guard", "stanza-create did not replace the missing " + f); return; }
        }
        for (auto &kv : save) fsWrite(h, kv.first, kv.second.first, run.repoUid(repo), run.repoUid(repo), kv.second.second); fsSyncTree(h, run.repoPath(repo)); run.probe("guard-" + k);
    }
    run.pg->archiverOn = true; run.pg->archiverKick();
}

static void scUpgrade(Run &run, int i, const Op &op)
{
    Rng x((uint64_t)op.n("xseed") + 13); int f0 = run.faultsFired(); auto sw = run.vars.count("sib") ? trees(run, run.vars["sib"]) : std::map<int, std::string>();
    if (run.models.size() < 2) return;                              // the cluster was not replaced (minimised plan)
    Host *h = run.repoHost(1);
    // Until the upgrade the stanza does not take the new cluster
    if (x.chance(0.5)) {
        auto t1 = trees(run, "demo"); int repo = (int)x.range(1, run.repos); std::string k = pick(x, {"stanza-create", "backup", "push", "check"}); CmdRes r;
        run.pg->archiverOn = false; run.waitArchiver();
        if (k == "stanza-create") r = run.quiet(h, {ST, k}); else if (k == "backup") r = run.quiet(run.repoHost(repo), {ST, k, "--repo=" + S(repo), "--no-archive-check"}); else if (k == "check") r = run.quiet(run.hp, {ST, k, "--archive-timeout=2"});
        else { run.pg->writePage(run.pg->pickRel(), 0); r = run.quiet(run.hp, {ST, "archive-push", "--archive-timeout=3", run.pg->walDir() + "/" + run.pg->switchWal()}, run.pg->data); run.settle(); fsRemoveTree(run.hp, "/spool/archive/demo/out"); }
        if (r.ok()) { run.fail("upgrade", k + " of another cluster succeeded before stanza-upgrade"); return; }
        auto t2 = trees(run, "demo"); for (auto &kv : t1) if (t2[kv.first] != kv.second) { run.fail("upgrade", "refused " + k + fmt(" of another cluster changed repo%d: ", kv.first) + diffTree(kv.second, t2[kv.first])); return; }
        run.pg->archiverOn = true; run.probe("upgrade-guard-" + k);
    }
    run.pg->archiverOn = false; run.settle();
    CmdRes r = run.cmd(h, {ST, "stanza-upgrade"}, "/", i);
    if (!r.ok() && run.faultsFired() == f0) { run.fail("upgrade", fmt("stanza-upgrade failed rc=%d: ", r.rc) + r.why()); return; }
    run.heal(); if (op.n("power")) { runUntil([] { return aliveCount() == 0; }, 10000000ll); run.powerAll((uint64_t)op.n("xseed"), 3); }
    run.pg->archiverOn = false; run.settle(); for (auto hh : W->hosts) killHost(hh); W->stuckWhy.clear();
    if (!r.ok() || x.chance(0.5)) { CmdRes r2 = run.quiet(h, {ST, "stanza-upgrade"}); if (!r2.ok()) { run.fail("upgrade", fmt("repeated stanza-upgrade failed rc=%d: ", r2.rc) + r2.why()); return; } run.probe(r.ok() ? "upgrade-twice" : "upgrade-repeated"); }
    siblingSame(run, "stanza-upgrade", sw); if (run.bad()) return;
    works(run, "after stanza-upgrade", (int)x.range(1, run.repos)); if (run.bad()) return;
    run.waitArchiver(); run.pg->archiverOn = false; std::string e = run.checkListed("after stanza-upgrade", true, 3); if (!e.empty()) run.fail("upgrade", e); run.pg->archiverOn = true; run.pg->archiverKick();
    for (int k = 1; k <= run.repos && !run.bad(); k++) for (auto m : run.models) if (m != run.pg) for (auto &s : m->acked) if (x.chance(0.2) && s.size() == 24) {
        bool f = false; fsWalk(run.repoHost(k), run.repoPath(k) + "/archive/demo", [&](const std::string &p, Inode *) { if (p.find("/" + s + "-") != std::string::npos) f = true; });
        if (!f) { run.fail("upgrade", "WAL " + s + fmt(" of the cluster before stanza-upgrade is gone from repo%d", k)); return; }
    }
}

static void scDelete(Run &run, int i, const Op &op)
{
    Rng x((uint64_t)op.n("xseed") + 15); Pg *g = run.pg; auto sw = run.vars.count("sib") ? trees(run, run.vars["sib"]) : std::map<int, std::string>();
    int repo = (int)x.range(1, run.repos); Host *h = run.repoHost(repo); bool forced = op.n("force");
    run.drainWal(); run.waitArchiver(); g->archiverOn = false; auto t1 = trees(run, "demo");
    auto same = [&](const std::string &why, int but) { auto t2 = trees(run, "demo"); for (auto &kv : t1) if (kv.first != but && t2[kv.first] != kv.second && !run.bad()) run.fail("delete", why + fmt(" changed repo%d: ", kv.first) + diffTree(kv.second, t2[kv.first])); };
    if (x.chance(0.4)) {                                            // refused without stop, also with --force and after the stop of other stanzas
        int v = (int)x.below(3); if (v == 1) run.quiet(h, {"stop"}); if (v == 2 && run.vars.count("sib")) run.quiet(h, {"--stanza=" + run.vars["sib"], "stop"});
        CmdRes r = deleteStanza(run, i, repo, x.chance(0.5), false); if (r.ok()) { run.fail("delete", "stanza-delete succeeded without stop of the stanza"); return; } same("refused stanza-delete", 0); if (run.bad()) return;
        if (v == 1) run.quiet(h, {"start"}); if (v == 2 && run.vars.count("sib")) run.quiet(h, {"--stanza=" + run.vars["sib"], "start"}); run.probe("delete-nostop");
    }
    CmdRes s = run.quiet(h, {ST, "stop"}); if (!s.ok()) { run.fail("delete", "stop failed: " + s.why()); return; }
    std::string pid = g->data + "/postmaster.pid";
    if (!forced) {                                                  // refused while the cluster is running
        if (fsExists(run.hp, pid)) { CmdRes r = deleteStanza(run, i, repo, false, false); if (r.ok()) { run.fail("delete", "stanza-delete without --force succeeded while the cluster is running"); return; } same("refused stanza-delete", 0); if (run.bad()) return; run.probe("delete-running"); }
        fsUnlink(run.hp, pid);
    }
    int f0 = run.faultsFired(); CmdRes r = deleteStanza(run, i, repo, forced, true);
    if (!r.ok() && run.faultsFired() == f0) { run.fail("delete", fmt("stanza-delete failed rc=%d: ", r.rc) + r.why()); return; }
    run.noFaults(); for (auto &kv : W->procs) kv.second->stallUntil = 0; run.settle(); for (auto hh : W->hosts) killHost(hh); W->stuckWhy.clear();
    if (op.n("power")) run.powerAll((uint64_t)op.n("xseed"), 3);
    same("stanza-delete of another repository", repo); siblingSame(run, "stanza-delete", sw); if (run.bad()) return;
    if (!forced) fsUnlink(run.hp, pid);                             // the cluster is still down
    if (!r.ok()) { if (!fsExists(h, "/tmp/pgbackrest/demo.stop")) run.quiet(h, {ST, "stop"}); r = deleteStanza(run, i, repo, forced, false); if (!r.ok()) { run.fail("delete", fmt("repeated stanza-delete failed rc=%d: ", r.rc) + r.why()); return; } run.probe("delete-repeated"); }
    if (!op.n("power") || W->stats.faults[FK_POWER] == 0) for (auto *d : {"archive", "backup"}) if (fsExists(h, run.repoPath(repo) + "/" + d + "/demo")) { run.fail("delete", fmt("stanza-delete left repo%d/%s/demo: ", repo, d) + fsHashTree(h, run.repoPath(repo) + "/" + d + "/demo", false).substr(0, 300)); return; }
    same("stanza-delete of another repository", repo); siblingSame(run, "stanza-delete", sw); if (run.bad()) return;
    RepoInfo ri = run.info(repo); if (!ri.backups.empty() && !op.n("power")) { run.fail("delete", "info lists backups after stanza-delete"); return; }
    // and the stanza can be created again
    run.completed[repo].clear(); if (!fsExists(run.hp, pid)) fsWrite(run.hp, pid, "123\n", 1000, 1000);
    if (op.n("power")) { run.quiet(h, {ST, "stop"}); r = deleteStanza(run, i, repo, true, false); if (!r.ok()) { run.fail("delete", fmt("stanza-delete after power loss failed rc=%d: ", r.rc) + r.why()); return; } }
    run.quiet(h, {ST, "start"}); r = run.quiet(run.repoHost(1), {ST, "stanza-create"}); if (!r.ok()) { run.fail("delete", fmt("stanza-create after stanza-delete failed rc=%d: ", r.rc) + r.why()); return; }
    works(run, "after stanza-delete and stanza-create", repo); run.probe("delete");
}

bool stanzaOp(Run &run, int i, const Op &op)
{
    if (op.name == "sibling") { siblingSetup(run, op.s("name", "demo2")); return true; }
    if (op.name == "stoptest") { stopTest(run, i, op); return true; }
    if (op.name == "sccreate") { scCreate(run, i, op); return true; }
    if (op.name == "scguard") { scGuard(run, i, op); return true; }
    if (op.name == "scupgrade") { scUpgrade(run, i, op); return true; }
    if (op.name == "scdelete") { scDelete(run, i, op); return true; }
    return false;
}

static std::string sibName(Rng &r) { return pick(r, {"demo2", "demo-2", "dem", "demo-archive", "demo-backup-1", "all-demo"}); }

GEN(C19)
{
    swarm(p, r, {}); (void)th; p.cfg["rels"] = S(r.range(3, 6)); p.cfg["archive-timeout"] = "40"; p.cfg["archretry"] = pick(r, {"1000", "5000"}); auto X = [&] { return S((int64_t)r.below(1000000)); };
    p.ops.push_back(O("stanza-create")); p.ops.push_back(O("activity", {{"ms", S(r.range(5, 60))}}));
    p.ops.push_back(O("backup", {{"type", "full"}, {"repo", S(r.range(1, p.n("repos")))}}));
    if (r.chance(0.7)) p.ops.push_back(O("sibling", {{"name", sibName(r)}}));
    int n = (int)r.range(1, 2), tgt = (int)r.below((uint64_t)n);
    for (int k = 0; k < n; k++) {
        Op o = O("stoptest", {{"where", S(r.range(1, 3))}, {"all", S(r.chance(0.25))}, {"force", S(r.chance(0.6))}, {"bg", pick(r, {"", "backup", "backup", "expire", "upgrade", "sibbackup", "sibbackup", "sibexpire"})}, {"act", S(r.chance(0.5))}, {"delay", S(r.pick(std::vector<int64_t>{100, 3000, 30000, 300000, 1500000, 4000000}) * r.range(1, 10) / 10)}, {"power", S(r.chance(0.2))}, {"xseed", X()}});
        if (k == tgt) { addTarget(p, o); p.ops.push_back(O("heal")); } else p.ops.push_back(o);
    }
    p.ops.push_back(O("checkall"));
    p.variants = 5; p.faultMix = "@resched,@xseed,lag,lag,lag,kill,errno,term";
}
GEN(C20)
{
    swarm(p, r, {}); (void)th; p.cfg["rels"] = S(r.range(3, 6)); auto X = [&] { return S((int64_t)r.below(1000000)); };
    std::string k = pick(r, {"create", "guard", "guard", "upgrade", "delete", "delete", "create"}); std::string pw = S(r.chance(0.3)); bool early = r.chance(0.4);
    if (early && k == "create") p.ops.push_back(O("sibling", {{"name", sibName(r)}}));
    if (k == "create") { addTarget(p, O("sccreate", {{"power", pw}, {"xseed", X()}})); p.ops.push_back(O("heal")); }
    else {
        if (k == "guard" && r.chance(0.4)) { p.ops.push_back(O("stanza-create")); p.ops.push_back(O("switch", {{"n", S(r.range(1, 3))}})); } else history(p, r, (int)r.range(1, 2), false);
        if (r.chance(k == "guard" ? 0.2 : 0.6)) p.ops.push_back(O("sibling", {{"name", sibName(r)}}));
        if (k == "guard") { int n = (int)r.range(3, 6); for (int q = 0; q < n; q++) { Op o = O("scguard", {{"what", pick(r, {"none", "archive", "backup", "one", "copies"})}, {"xseed", X()}}); if (q) p.ops.push_back(o); else addTarget(p, o); } }
        if (k == "upgrade") { p.ops.push_back(O("upgrade", {{"nostanza", "1"}, {"same", S(r.chance(0.4))}})); addTarget(p, O("scupgrade", {{"power", pw}, {"xseed", X()}})); p.ops.push_back(O("heal")); }
        if (k == "delete") { addTarget(p, O("scdelete", {{"power", pw}, {"force", S(r.chance(0.5))}, {"xseed", X()}})); p.ops.push_back(O("heal")); }
    }
    p.ops.push_back(O("checkall"));
    p.variants = k == "guard" ? 3 : 10; p.faultMix = k == "guard" ? "@xseed" : "@resched,@xseed,kill,kill,killtree,errno,errno,term,power,full,lag,short"; if (p.n("remote") && k != "guard") p.faultMix += ",break";
}
}
