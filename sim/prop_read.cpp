// C29: commands that only read, while others write
#include "props.h"
#include "prop_more.h"
#include <algorithm>

namespace sim {
typedef std::vector<std::string> Args;

struct Reader { std::string kind, arg, dir; int repo = 1; Proc *p = nullptr; std::set<std::string> ackedAt; CmdRes r; bool during = false; };

static std::set<std::string> lab(const RepoInfo &ri) { std::set<std::string> s; for (auto &b : ri.backups) s.insert(b.label); return s; }

static void concur(Run &run, int i, const Op &op)
{
    Pg *g = run.pg; Rng x((uint64_t)op.n("xseed") + 2929); int repo = (int)op.n("repo", 1); Host *rh = run.repoHost(repo); std::string w = op.s("writer"), ST = "--stanza=demo";
    std::map<int, RepoInfo> before; for (int k = 1; k <= run.repos; k++) { before[k] = run.info(k); if (!before[k].ok) { run.fail("info", "info failed: " + before[k].raw.substr(0, 600)); return; } }
    std::set<std::string> was = lab(before[repo]); std::vector<std::string> all; for (auto &b : before[repo].backups) all.push_back(b.label);
    if (op.n("act", 1)) g->startActivity();
    // the command that writes
    Args a = {ST}; Host *wh = rh;
    if (w == "backup") { a.insert(a.end(), {"backup", "--repo=" + S(repo), "--type=" + op.s("type", "incr")}); }
    else if (w == "expire") { a.insert(a.end(), {"expire", "--repo=" + S(repo), fmt("--repo%d-retention-full=%d", repo, (int)x.range(1, 2))}); if (x.chance(0.5)) a.push_back(fmt("--repo%d-retention-diff=1", repo)); if (x.chance(0.5)) a.push_back(fmt("--repo%d-retention-archive=1", repo)); }
    else if (w == "expireset" && !all.empty()) { a.insert(a.end(), {"expire", "--repo=" + S(repo), "--set=" + all[x.below(all.size())]}); }
    else if (w == "annotate" && !all.empty()) { a.insert(a.end(), {"annotate", "--repo=" + S(repo), "--set=" + all[x.below(all.size())], "--annotation=note=some text " + S(x.range(1, 9))}); }
    else if (w == "create") { a.push_back("stanza-create"); wh = run.repoHost(1); }
    else if (w == "upgrade") { a.push_back("stanza-upgrade"); wh = run.repoHost(1); }
    else if (w == "push") { a.clear(); }                            // only the archiver writes
    else return;
    for (auto &e : extraArgs(op)) if (!a.empty()) a.push_back(e);
    int f0 = run.faultsFired(); Proc *wp = a.empty() ? nullptr : run.start(wh, a, "/", i);
    // and those that read
    std::vector<Reader> rd; int n = (int)x.range(2, 7); int64_t gap = std::vector<int>{200, 1500, 6000, 20000}[x.below(4)];
    fsMkdirs(run.hp, "/restore/wal/pg_wal", 1000, 1000, 0700); fsMkdirs(run.hp, "/restore/wal/global", 1000, 1000, 0700); fsWrite(run.hp, "/restore/wal/global/pg_control", g->controlBytes(), 1000, 1000);
    for (int k = 0; k < n; k++) {
        int64_t st = x.range(0, gap); usec tl = W->now + (wp ? 600000000 : (usec)x.range(1000, 3000000));
        runUntil([&] { return (wp && wp->exited) || --st <= 0 || W->now >= tl; }, 900000000ll);
        if (wp && wp->exited && k) break;
        Reader q; q.kind = pick(x, {"info", "info", "infotext", "infoset", "restore", "restore", "verify", "get", "get", "ls"}); q.repo = x.chance(0.8) ? repo : (int)x.range(1, run.repos); q.during = wp && !wp->exited;
        for (auto &f : g->acked) q.ackedAt.insert(f);
        Host *h = run.repoHost(q.repo); Args ra = {ST}; bool anyHost = x.chance(0.4); if (anyHost) h = run.hp;
        std::vector<std::string> bl; for (auto &b : before[q.repo].backups) bl.push_back(b.label);
        if (q.kind == "info") { ra.insert(ra.end(), {"info", "--output=json", "--repo=" + S(q.repo), "--log-level-console=off"}); }
        else if (q.kind == "infotext") { ra.insert(ra.end(), {"info", "--repo=" + S(q.repo), "--log-level-console=off"}); }
        else if (q.kind == "infoset") { if (bl.empty()) continue; q.arg = bl[x.below(bl.size())]; ra.insert(ra.end(), {"info", "--output=json", "--repo=" + S(q.repo), "--set=" + q.arg, "--log-level-console=off"}); }
        else if (q.kind == "restore") {
            bool one = false; for (auto &y : rd) one |= y.kind == "restore" && !y.p->exited; if (bl.empty() || one || w == "create" || w == "upgrade") continue;   // refused by lock
            q.arg = x.chance(0.7) ? bl.back() : bl[x.below(bl.size())]; h = run.hp; Run::RestoreOpt o; o.label = q.arg; o.repo = q.repo; ra = run.restoreArgs(o); q.dir = o.dir;
        }
        else if (q.kind == "verify") { ra.insert(ra.end(), {"verify", "--repo=" + S(q.repo), "--output=text", "--verbose", "--log-level-console=warn"}); h = run.repoHost(q.repo); }
        else if (q.kind == "get") {
            std::vector<std::string> v; for (auto &f : g->acked) v.push_back(f); if (v.empty()) continue; q.arg = x.chance(0.8) ? (x.chance(0.5) ? v.back() : v[x.below(v.size())]) : g->segName(g->lsn); h = run.hp; q.dir = "/restore/wal/pg_wal/got" + S(k);
            ra = {ST, "--pg1-path=/restore/wal", "archive-get", "--no-archive-async", "--repo=" + S(q.repo), q.arg, q.dir};
        }
        else { ra = {"repo-ls", "--repo=" + S(q.repo), "--recurse", "--output=json"}; h = run.repoHost(q.repo); }
        q.p = run.start(h, ra, q.kind == "get" ? "/restore/wal" : "/", -1); rd.push_back(q);
    }
    CmdRes wr; bool hung = false;
    if (wp) { wr = run.wait(wp); hung = !wr.done; }
    for (auto &q : rd) { q.r = run.wait(q.p); if (!q.r.done) hung = true; }
    g->stopActivity(); bool fault = run.faultsFired() != f0; if (run.bad()) return;
    if (hung) { run.vars["skip"] = "1"; run.heal(); return; }       // C18 judges that
    { bool fon = W->faultsOn; run.noFaults(); run.drainWal(); run.waitArchiver(); W->faultsOn = fon; }
    std::map<int, RepoInfo> after; for (int k = 1; k <= run.repos; k++) { after[k] = run.info(k); if (!after[k].ok) { run.fail("info", "info failed after " + w + ": " + after[k].raw.substr(0, 600)); return; } }
    bool removes = w == "expire" || w == "expireset" || w == "backup";   // backup runs expire at its end
    std::string what = "while " + (w == "push" ? std::string("WAL was archived") : w + " ran");
    if (wp && !wr.ok() && !fault && w != "expireset" && w != "expire" && !((w == "create" || w == "upgrade") && (wr.rc == 50 || wr.rc == 56))) { run.fail("writer", w + fmt(" failed rc=%d while only readers ran: ", wr.rc) + wr.why()); return; }
    for (auto &q : rd) {
        std::set<std::string> b = lab(before[q.repo]), e = lab(after[q.repo]);
        // a backup that completed but was not listed because the command was interrupted is listed by the next one only
        if (q.kind == "info") {
            RepoInfo ri = Run::parseInfo(q.r, q.repo);
            if (!ri.ok) { run.fail("info", "info failed " + what + fmt(" rc=%d: ", q.r.rc) + q.r.why()); return; }
            if (ri.code != 0 && ri.code != 2 ) { run.fail("info", fmt("info shows status %d ", ri.code) + what + ": " + q.r.out.substr(0, 600)); return; }
            std::set<std::string> s = lab(ri);
            for (auto &l : s) if (!b.count(l) && !e.count(l) && !removes) { run.fail("list", "info listed " + l + ", which did not exist before or after, " + what); return; }
            for (auto &l : b) if (e.count(l) && !s.count(l)) { run.fail("list", "info did not list " + l + ", which existed all the time, " + what); return; }
            for (auto &y : ri.backups) {
                if (!y.prior.empty() && !s.count(y.prior)) { run.fail("list", "info listed " + y.label + " without " + y.prior + ", which it depends on, " + what); return; }
                for (auto &f : y.ref) if (!s.count(f)) { run.fail("list", "info listed " + y.label + " without " + f + ", which it references, " + what); return; }
                for (auto &z : before[q.repo].backups) if (z.label == y.label && (z.startLsn != y.startLsn || z.stopLsn != y.stopLsn || z.type != y.type || z.prior != y.prior)) { run.fail("list", "info showed other data of " + y.label + " " + what); return; }
                if (!run.modelBackup(y)) { run.fail("list", "info listed " + y.label + ", which is not a completed backup, " + what); return; }
            }
            run.probe(q.during ? "info-during" : "info-beside");
        } else if (q.kind == "infotext") {
            if (!q.r.ok()) { run.fail("info", "info (text) failed " + what + fmt(" rc=%d: ", q.r.rc) + q.r.why()); return; }
            for (auto &l : b) if (e.count(l) && q.r.out.find("backup: " + l + "\n") == std::string::npos) { run.fail("list", "info (text) did not list " + l + " " + what); return; }
            if (q.r.out.find("status: error") != std::string::npos && !(b.empty() || e.empty())) { run.fail("info", "info (text) shows an error " + what + ": " + q.r.out.substr(0, 600)); return; }
            run.probe("infotext"); if (q.r.out.find("backup/expire running") != std::string::npos) run.probe("infotext-running");
        } else if (q.kind == "infoset") {
            RepoInfo ri = Run::parseInfo(q.r, q.repo); bool gone = !e.count(q.arg);
            if (!ri.ok && !gone) { run.fail("info", "info --set=" + q.arg + " failed " + what + fmt(" rc=%d: ", q.r.rc) + q.r.why()); return; }
            if (ri.ok && !gone && !lab(ri).count(q.arg)) { run.fail("list", "info --set=" + q.arg + " did not show it " + what); return; }
            run.probe("infoset");
        } else if (q.kind == "verify") {
            bool ok = q.r.ok() && q.r.out.find("status: error") == std::string::npos && q.r.out.find("status: invalid") == std::string::npos && q.r.out.find("status: manifest missing") == std::string::npos;
            if (!ok && !removes) { run.fail("verify", "verify reports errors " + what + fmt(" rc=%d: ", q.r.rc) + q.r.all().substr(0, 1200)); return; }
            if (!ok && w == "backup" && std::includes(e.begin(), e.end(), b.begin(), b.end()) && run.vars["walexp"].empty()) { run.fail("verify", "verify reports errors while a backup was made" + fmt(" rc=%d: ", q.r.rc) + q.r.all().substr(0, 1200)); return; }
            run.probe(ok ? "verify-ok" : "verify-removed");
        } else if (q.kind == "get") {
            std::string c; bool have = fsRead(run.hp, q.dir, c);
            if (q.r.ok()) {
                if (!have || c != g->walContent[q.arg]) { run.fail("get", "archive-get of " + q.arg + (have ? " returned wrong content " : " succeeded without the file ") + what); return; }
            } else if (q.ackedAt.count(q.arg)) {                    // archived before it was asked for: it must be there unless it was removed
                std::string out; int rc = 0; std::string er = run.getWal(q.arg, q.repo, out, &rc);
                if (er.empty() && rc == 0) { run.fail("get", "archive-get of " + q.arg + " in the archive all the time failed " + what + fmt(" rc=%d: ", q.r.rc) + q.r.why()); return; }
            } else if (q.r.rc != 1) { run.fail("get", "archive-get of " + q.arg + " failed " + what + fmt(" rc=%d: ", q.r.rc) + q.r.why()); return; }
            run.probe(q.r.ok() ? "get-ok" : "get-none");
        } else if (q.kind == "restore") {
            bool gone = !e.count(q.arg);
            if (!q.r.ok()) {
                if (!gone) { run.fail("restore", "restore of " + q.arg + " failed " + what + fmt(" rc=%d: ", q.r.rc) + q.r.why()); return; }
                if (fsExists(run.hp, q.dir + "/global/pg_control")) { run.fail("restore", "restore of " + q.arg + " failed " + what + " but left a cluster that can be started"); return; }
                run.probe("restore-gone");
            } else if (!gone) {                                     // as good as ever (what is kept can be brought to consistency)
                Run::Recov rv; const BackupRec *m = nullptr; std::string l; fsRead(run.hp, q.dir + "/backup_label", l);
                Pg *save = run.pg; for (auto y : run.models) for (auto &z : y->backups) if (z.label == l) { m = &z; run.pg = y; }
                bool fon = W->faultsOn; run.noFaults(); std::string er = m ? run.recover(q.dir, rv, false, 0, m) : "backup_label of no backup"; if (er.empty()) er = run.checkExtras(q.dir, m->t0, m->t1); run.pg = save; W->faultsOn = fon;
                if (!er.empty()) { run.fail("restore", "restore of " + q.arg + " succeeded " + what + " but: " + er); return; }
                run.probe("restore-ok");
            } else run.probe("restore-raced");
            fsRemoveTree(run.hp, q.dir); fsRemoveTree(run.hp, q.dir + "-ts");
        } else {                                                    // repo-ls: anything may vanish, but it must answer
            if (!q.r.ok()) { run.fail("ls", "repo-ls failed " + what + fmt(" rc=%d: ", q.r.rc) + q.r.why()); return; }
            run.probe("ls");
        }
    }
    if (removes) run.completed[repo].clear();
    if (w == "backup" && wr.ok()) { bool one = false; for (auto &l : lab(after[repo])) if (!was.count(l)) { run.completed[repo].insert(l); one = true; } if (!one) run.fail("writer", "backup succeeded beside readers but is not listed"); }
}

bool readOp(Run &run, int i, const Op &op)
{
    if (op.name == "concur") { concur(run, i, op); return true; }
    return false;
}

GEN(C29)
{
    (void)th; swarm(p, r, {.async = 0}); p.cfg["rels"] = S(r.range(3, 6)); p.cfg["maxpages"] = "5"; p.cfg["qdelay"] = pick(r, {"500", "2000", "20000"}); p.cfg.erase("archive-copy");
    history(p, r, (int)r.range(2, 5)); int repos = (int)p.n("repos", 1), n = (int)r.range(1, 3), tgt = n - 1;
    for (int q = 0; q < n; q++) {
        Op c = O("concur", {{"writer", pick(r, {"backup", "backup", "backup", "expire", "expire", "expireset", "annotate", "create", "upgrade", "push"})}, {"repo", S(r.range(1, repos))}, {"type", rtype(r)}, {"xseed", S((int64_t)r.below(1000000000))}, {"act", S(r.below(2))}});
        if (q == tgt) { addTarget(p, c); p.ops.push_back(O("heal")); } else { p.ops.push_back(c); p.ops.push_back(O("activity", {{"ms", S(r.range(5, 100))}})); }
    }
    p.ops.push_back(O("checkkept"));                                // an interrupted expire is for C07
    std::string tw = p.ops[(size_t)p.target].s("writer"); p.variants = 8; p.faultMix = r.chance(0.6) || tw.compare(0, 6, "expire") == 0 ? "@resched,@xseed,@xseed" : "@resched,@xseed,lag,kill,term,errno";
}
}
