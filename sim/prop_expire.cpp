// C07 / C08: retention. A small executable model of the documented retention rules, compared with what expire leaves behind
#include "props.h"
#include "prop_more.h"
#include <algorithm>

namespace sim {

typedef std::vector<std::pair<std::string, std::string>> Ranges;    // [first, last], "" = open
struct ArchKeep { bool all = false, gone = false; Ranges rg; std::string histTli; };
struct Keep { bool error = false; std::set<std::string> labels; std::map<std::string, ArchKeep> arch; bool histOn = false; std::string histMin; };
struct ExpOpt { std::string adhoc, before; bool oldest = false; };

static std::string lab(time_t t) { struct tm tm; gmtime_r(&t, &tm); char b[32]; strftime(b, sizeof b, "%Y%m%d-%H%M%SF", &tm); return b; }

static bool keepWal(const ArchKeep &k, const std::string &f)         // f: file name as stored (segment prefix) or history file
{
    if (k.all) return true;
    if (k.gone) return false;
    if (f.size() >= 16 && f.compare(8, 8, ".history") == 0) return k.histTli.empty() || f.substr(0, 8) >= k.histTli;
    std::string s = f.substr(0, 24);
    for (auto &r : k.rg) if (s >= r.first && (r.second.empty() || s <= r.second)) return true;
    return false;
}

static Keep model(Run &run, int repo, const std::vector<BkInfo> &eff, const ExpOpt &o, int64_t now, const std::set<std::string> &ids, int curId)
{
    Keep k; auto cf = [&](const char *n) { return run.s(std::string(n) + S(repo), run.s(n)); };
    auto num = [&](const char *n) { std::string v = cf(n); return v.empty() ? 0 : atoi(v.c_str()); };
    int rf = num("retention-full"), rd = num("retention-diff"), ra = num("retention-archive");
    bool time = cf("retention-full-type") == "time"; std::string rat = cf("retention-archive-type"); if (rat.empty()) rat = "full";
    if (!ra) ra = rat == "full" && !time ? rf : rat == "diff" ? rd : 0;
    std::vector<BkInfo> v = eff;
    std::function<bool(const std::string &, const std::string &)> dep = [&](const std::string &l, const std::string &of) {
        if (l == of) return true;
        for (auto &b : eff) if (b.label == l) return !b.prior.empty() && dep(b.prior, of);
        return false; };
    auto drop = [&](const std::string &l) { v.erase(std::remove_if(v.begin(), v.end(), [&](const BkInfo &b) { return dep(b.label, l); }), v.end()); };
    auto fulls = [&] { std::vector<BkInfo> f; for (auto &b : v) if (b.type == "full") f.push_back(b); return f; };
    if (o.oldest && fulls().size() > 1) { time = false; rf = ra = (int)fulls().size() - 1; rat = "full"; }
    if (!o.adhoc.empty()) {
        auto f = fulls();
        for (auto &b : eff) if (b.label == o.adhoc) {
            if (!f.empty() && f.back().label == o.adhoc && (f.size() == 1 || f[f.size() - 2].dbId != f.back().dbId)) { k.error = true; break; }
            drop(o.adhoc); break;
        }
    } else {
        auto f = fulls();
        if (time && rf) {
            int met = -1; for (int i = (int)f.size() - 1; i >= 0; i--) if (f[(size_t)i].tStop < now - (int64_t)rf * 86400) { met = i; break; }
            if (met >= 0) {
                for (int i = 0; i < met; i++) drop(f[(size_t)i].label);
                if (rat == "full" && !ra) ra = (int)f.size() - met;
            }
        } else if (!time && rf && (int)f.size() > rf) for (size_t i = 0; i < f.size() - (size_t)rf; i++) drop(f[i].label);
        if (rd) {
            std::vector<BkInfo> l; for (auto &b : v) if (b.type != "incr") l.push_back(b);
            if ((int)l.size() > rd) for (size_t i = 0; i < l.size() - (size_t)rd; i++) if (l[i].type == "diff") drop(l[i].label);
        }
    }
    for (auto &b : v) k.labels.insert(b.label);
    // archive
    std::vector<BkInfo> gl; for (auto it = v.rbegin(); it != v.rend(); ++it) if (it->type == "full" || (rat != "full" && it->type == "diff") || rat == "incr") gl.push_back(*it);
    bool runs = !k.error && ra > 0 && (!o.before.empty() || (!gl.empty() && ra <= (int)gl.size()));
    for (auto &id : ids) {
        ArchKeep &a = k.arch[id]; int dbId = atoi(id.c_str() + id.rfind('-') + 1);
        if (!runs) { a.all = true; continue; }
        std::vector<BkInfo> local; for (auto &b : gl) if (b.dbId == dbId) local.push_back(b);   // newest first
        if (local.empty()) { if (dbId != curId) a.gone = true; else if (!o.before.empty()) a.rg.push_back({o.before, ""}); else a.all = true; continue; }
        BkInfo ret = local.front();
        for (size_t i = 0; i < gl.size() && i < (size_t)ra; i++) if (gl[i].dbId == dbId) ret = gl[i];
        for (auto &b : v) if (b.dbId == dbId && b.label <= ret.label) a.rg.push_back({b.startSeg, b.label == ret.label ? "" : b.stopSeg});
        if (!o.before.empty() && o.before < ret.startSeg) a.rg.push_back({o.before, ret.startSeg});
        a.histTli = ret.startSeg.substr(0, 8);
    }
    std::string rh = cf("retention-history");
    if (!rh.empty() && !k.error) { k.histOn = true; k.histMin = lab(now - (int64_t)atoi(rh.c_str()) * 86400); }
    return k;
}

struct Disk { std::vector<BkInfo> eff; std::set<std::string> dirs, manif; std::string resumable; std::map<std::string, std::set<std::string>> wal; std::set<std::string> hist; std::string latest; bool ok = true, extra = false; std::string err; };
static bool isLabel(const std::string &s) { return s.size() >= 16 && s[8] == '-' && s[15] == 'F'; }

static Disk disk(Run &run, int repo)
{
    Disk d; Host *h = run.repoHost(repo); std::string b = run.repoPath(repo) + "/backup/demo", a = run.repoPath(repo) + "/archive/demo";
    RepoInfo ri = run.info(repo); d.ok = ri.ok; d.err = ri.raw.substr(0, 500);
    std::string newest;
    for (auto &n : fsList(h, b)) if (isLabel(n)) { d.dirs.insert(n); if (fsExists(h, b + "/" + n + "/backup.manifest")) d.manif.insert(n); newest = std::max(newest, n); }
    if (!newest.empty() && !d.manif.count(newest) && fsExists(h, b + "/" + newest + "/backup.manifest.copy")) d.resumable = newest;
    for (auto &x : ri.backups) if (d.manif.count(x.label)) d.eff.push_back(x);
    for (auto &m : d.manif) { bool in = false; for (auto &x : ri.backups) in |= x.label == m; if (!in) d.extra = true; }   // complete but not listed yet: the next command adds it
    // a listed backup whose prior is gone goes with it
    for (bool ch = true; ch;) { ch = false; for (size_t i = 0; i < d.eff.size(); i++) { bool ok = d.eff[i].prior.empty(); for (auto &y : d.eff) if (y.label == d.eff[i].prior) ok = true; if (!ok) { d.eff.erase(d.eff.begin() + (long)i); ch = true; break; } } }
    for (auto &id : fsList(h, a)) { Inode *i = fsLookup(h, a + "/" + id); if (!i || i->type != TDir) continue; auto &s = d.wal[id]; fsWalk(h, a + "/" + id, [&](const std::string &p, Inode *n) { if (n->type == TFile && p.find(".pgbackrest.tmp") == std::string::npos) s.insert(p.substr(p.rfind('/') + 1)); }); }
    fsWalk(h, b + "/backup.history", [&](const std::string &p, Inode *n) { if (n->type == TFile && p.find(".pgbackrest.tmp") == std::string::npos) d.hist.insert(p.substr(p.rfind('/') + 1)); });
    Inode *l = fsLookup(h, b + "/latest", false); if (l && l->type == TLink) d.latest = *l->data;
    return d;
}

struct Before { int repo; Disk d; Keep k0, k1; bool dry = false; };
static std::vector<Before> last;                                     // state before the last expire, for expchk

// What must hold whatever happened to the command: nothing retained is gone
static void checkSafe(Run &run, const Before &b, const Disk &a, bool wal)
{
    if (!a.ok) { run.fail("info", fmt("info failed on repo%d after expire: ", b.repo) + a.err); return; }
    std::set<std::string> have; for (auto &x : a.eff) have.insert(x.label);
    for (auto &x : b.d.eff) {
        bool keep = b.k0.labels.count(x.label) && b.k1.labels.count(x.label);
        if ((keep || b.dry) && !have.count(x.label)) { run.fail("retained-lost", fmt("backup %s is within retention of repo%d but was removed by expire", x.label.c_str(), b.repo)); return; }
    }
    for (auto &f : b.d.hist) {
        std::string l = f.substr(0, f.find('.')); bool cur = b.k0.labels.count(l) && b.k1.labels.count(l) && b.d.manif.count(l);
        bool keep = b.dry || cur || !b.k0.histOn || l >= b.k1.histMin;
        if (keep && !a.hist.count(f)) { run.fail("history-lost", fmt("backup history manifest %s is retained in repo%d but was removed by expire", f.c_str(), b.repo)); return; }
    }
    if (wal) for (auto &id : b.d.wal) for (auto &f : id.second) {
        auto i0 = b.k0.arch.find(id.first), i1 = b.k1.arch.find(id.first); if (i0 == b.k0.arch.end()) continue;
        if ((b.dry || (keepWal(i0->second, f) && keepWal(i1->second, f))) && !(a.wal.count(id.first) && a.wal.at(id.first).count(f)))
            { run.fail("wal-lost", fmt("archive file %s/%s is within retention of repo%d but was removed by expire", id.first.c_str(), f.c_str(), b.repo)); return; }
    }
    run.probe("expire-safe");
}

static void ackedFromDisk(Run &run)                                  // what expire removed is not owed any more
{
    for (size_t m = 0; m < run.models.size(); m++) {
        std::set<std::string> on;
        for (int r = 1; r <= run.repos; r++) { Host *h = run.repoHost(r); std::string a = run.repoPath(r) + "/archive/demo";
            for (auto &id : fsList(h, a)) { size_t q = id.rfind('-'); if (q == std::string::npos || (size_t)atoi(id.c_str() + q + 1) != m + 1) continue; fsWalk(h, a + "/" + id, [&](const std::string &p, Inode *n) { if (n->type == TFile) { std::string f = p.substr(p.rfind('/') + 1); on.insert(f); if (f.size() > 24 && f[24] == '-') on.insert(f.substr(0, 24)); else if (f.find(".partial-") != std::string::npos) on.insert(f.substr(0, 32)); } }); } }
        std::set<std::string> a; for (auto &f : run.models[m]->acked) if (on.count(f)) a.insert(f);
        run.models[m]->acked = a;
    }
}

bool expireOp(Run &run, int i, const Op &op)
{
    bool wal = run.plan.prop != "C07", bks = run.plan.prop != "C08";
    if (op.name == "expirex") {
        std::string cmdn = op.s("cmd", "expire"); int only = (int)op.n("repo"); bool dry = op.n("dry");
        Rng x((uint64_t)op.n("xseed") + 17);
        run.pg->stopActivity(); run.drainWal(); run.waitArchiver();
        last.clear(); ExpOpt o; std::vector<std::string> a = {"--stanza=demo", cmdn};
        for (int r = 1; r <= run.repos; r++) if (!only || only == r) { Before b; b.repo = r; b.d = disk(run, r); b.dry = dry; if (!b.d.ok) { run.fail("info", fmt("info failed on repo%d: ", r) + b.d.err); return true; } last.push_back(b); }
        if (cmdn == "expire") {
            if (only) a.push_back("--repo=" + S(only));
            if (dry) a.push_back("--dry-run");
            if (op.s("mode") == "set") { Before &b = last[x.below(last.size())]; if (!b.d.eff.empty()) { o.adhoc = b.d.eff[x.below(b.d.eff.size())].label; a.push_back("--set=" + o.adhoc); } }
            if (op.s("mode") == "oldest") { o.oldest = true; a.push_back("--oldest"); }
            if (op.n("before")) { std::vector<std::string> segs; for (auto &f : run.pg->walContent) if (f.first.size() == 24) segs.push_back(f.first); if (!segs.empty()) { o.before = segs[x.below(segs.size())]; a.push_back("--archive-expire-before=" + o.before); } }
        } else { a.push_back("--repo=" + S(only)); a.push_back("--type=" + op.s("type", "full")); run.pg->startActivity(); }
        for (auto it = last.begin(); it != last.end();) if (it->d.extra) { run.probe("unlisted-complete"); it = last.erase(it); } else ++it;
        if (cmdn == "backup" && last.empty()) { run.pg->stopActivity(); return true; }
        std::string tree0; if (dry) for (auto &b : last) tree0 += fsHashTree(run.repoHost(b.repo), run.repoPath(b.repo), true);
        auto ids = [](const Disk &d) { std::set<std::string> s; for (auto &w : d.wal) s.insert(w.first); return s; };
        int cur = (int)run.models.size();
        int64_t t0 = wallSec(run.repoHost(1));
        if (cmdn == "expire") for (auto &b : last) b.k0 = model(run, b.repo, b.d.eff, o, t0, ids(b.d), cur);
        CmdRes r = run.cmd(run.repoHost(only ? only : 1), a, "/", i);
        run.pg->stopActivity();
        int64_t t1 = wallSec(run.repoHost(1)); if (t1 < t0) t1 = t0;
        run.vars["exprc"] = S(r.rc);
        if (cmdn == "backup") {
            // a backup that completed expires with the new backup in the list; one that failed may have stopped anywhere
            run.drainWal(); RepoInfo ri = run.info(only); std::vector<BkInfo> eff = last[0].d.eff; std::set<std::string> was; for (auto &b : eff) was.insert(b.label); bool added = false;
            for (auto &b : ri.backups) if (!was.count(b.label)) { eff.push_back(b); added = true; }
            if (r.ok() && !added) { run.probe("new-expired"); last.clear(); return true; }
            if (run.s("expire-auto") == "n") { Keep k; for (auto &b : eff) k.labels.insert(b.label); for (auto &id : ids(last[0].d)) k.arch[id].all = true; last[0].k0 = last[0].k1 = k; }
            else { last[0].k0 = model(run, only, eff, o, t0, ids(last[0].d), cur); last[0].k1 = model(run, only, eff, o, t1, ids(last[0].d), cur); }
            if (!added) for (auto &b : last[0].d.eff) { last[0].k0.labels.insert(b.label); last[0].k1.labels.insert(b.label); }   // expire did not run with a new backup
            if (!added) for (auto &x2 : last[0].k0.arch) x2.second.all = true;
            if (!added) for (auto &x2 : last[0].k1.arch) x2.second.all = true;
            run.probe(r.ok() ? "expire-backup-ok" : "expire-backup-failed");
            if (r.ok() && faultsOk(run)) { for (auto &b : ri.backups) if (!was.count(b.label)) run.completed[only].insert(b.label); }
            if (!r.ok() && !run.faultsFired()) { run.fail("backup", fmt("backup failed rc=%d with no fault active: ", r.rc) + r.why()); return true; }
            if (!r.ok()) return true;
        } else {
            for (auto &b : last) b.k1 = model(run, b.repo, b.d.eff, o, t1, ids(b.d), cur);
            run.probe(r.ok() ? "expire-ok" : "expire-failed");
            bool err = false; for (auto &b : last) err |= b.k0.error;
            if (err && r.ok()) { run.fail("last-full", "expire removed or accepted removal of the last full backup " + o.adhoc); return true; }
            if (!r.ok() && !err && !run.faultsFired()) { run.fail("expire", fmt("expire failed rc=%d without a fault: ", r.rc) + r.why()); return true; }
            if (err) run.probe("expire-refused");
            if (!r.ok()) return true;
        }
        // completed: exactly the retained backups, their files and WAL remain
        std::string tree1; bool autoExp = cmdn == "expire" || run.s("expire-auto") != "n";
        for (auto &b : last) {
            Disk a2 = disk(run, b.repo);
            if (dry) { tree1 += fsHashTree(run.repoHost(b.repo), run.repoPath(b.repo), true); continue; }
            checkSafe(run, b, a2, wal); if (run.bad()) return true;
            if (!autoExp || b.k0.error) continue;
            if (bks) {
                for (auto &y : a2.eff) if (!b.k0.labels.count(y.label) && !b.k1.labels.count(y.label)) { run.fail("expired-listed", fmt("expire succeeded but %s, which is beyond retention, is still listed in repo%d", y.label.c_str(), b.repo)); return true; }
                for (auto &l : a2.dirs) if (!b.k0.labels.count(l) && !b.k1.labels.count(l) && l != b.d.resumable) { run.fail("expired-on-disk", fmt("expire succeeded but files of %s, which is beyond retention, remain in repo%d", l.c_str(), b.repo)); return true; }
                if (!b.d.resumable.empty() && o.adhoc.empty() && cmdn == "expire" && !a2.dirs.count(b.d.resumable)) { run.fail("resumable-lost", fmt("expire removed the resumable backup %s in repo%d", b.d.resumable.c_str(), b.repo)); return true; }
                if (b.k0.histOn) for (auto &f : a2.hist) { std::string l = f.substr(0, f.find('.')); if (b.d.hist.count(f) && !b.k1.labels.count(l) && !b.k0.labels.count(l) && l < b.k0.histMin) { run.fail("history-kept", fmt("expire succeeded but expired history manifest %s remains in repo%d", f.c_str(), b.repo)); return true; } }
                if (!run.faultsFired() && !a2.latest.empty() && !a2.dirs.count(a2.latest)) { run.fail("latest-link", fmt("link 'latest' of repo%d points to removed backup %s", b.repo, a2.latest.c_str())); return true; }
            }
            if (wal) for (auto &id : a2.wal) for (auto &f : id.second) {
                auto i0 = b.k0.arch.find(id.first), i1 = b.k1.arch.find(id.first); if (i0 == b.k0.arch.end()) continue;
                if (!keepWal(i0->second, f) && !keepWal(i1->second, f)) { run.fail("wal-kept", fmt("expire succeeded but archive file %s/%s, which is beyond retention, remains in repo%d", id.first.c_str(), f.c_str(), b.repo)); return true; }
            }
            run.probe("expire-exact"); run.probe("expired-backups", (int64_t)(b.d.eff.size() - std::min(b.d.eff.size(), b.k0.labels.size()))); int64_t rm = 0; for (auto &id : b.d.wal) for (auto &f : id.second) if (!a2.wal[id.first].count(f)) rm++; run.probe("expired-wal", rm);
        }
        if (dry && tree0 != tree1) run.fail("dry-run", "expire --dry-run changed the repository");
        return true;
    }
    if (op.name == "expchk") {                                      // after faults stopped
        for (auto &b : last) { Disk a2 = disk(run, b.repo); checkSafe(run, b, a2, wal); if (run.bad()) return true; }
        return true;
    }
    if (op.name == "checkkept") {                                   // everything listed restores to a consistent cluster with the WAL that is left
        run.drainWal(); run.waitArchiver(); ackedFromDisk(run);
        for (int r = 1; r <= run.repos; r++) run.completed[r].clear();
        std::string e = run.checkListed("restore after expire", false, 2); if (!e.empty()) run.fail("restore", e);
        return true;
    }
    return false;
}

//---------------------------------------------------------------------------------------------------------------------------------
static void genExpire(Plan &p, Rng &r, bool th, bool wal)
{
    swarm(p, r, {}); p.cfg["rels"] = "3"; p.cfg["maxpages"] = "4"; p.cfg["extra"] = "1"; p.cfg["meta"] = "1"; p.cfg["tblspc"] = "0"; p.cfg["qdelay"] = "2000"; p.cfg.erase("clockoff"); p.cfg.erase("archive-copy");
    if (wal && r.chance(0.5)) p.cfg["lsn0"] = S(r.pick(std::vector<int64_t>{4096, 0xFF * 4096, 0xA0 * 4096}) - r.range(1, 5) * p.n("segsize", 1));   // cross an archive directory boundary early
    int repos = (int)p.n("repos", 1); bool time = r.chance(0.3), yearEnd = !wal && r.chance(0.3);
    for (int k = 1; k <= repos; k++) {
        std::string s = S(k);
        if (r.chance(wal ? 0.7 : 0.9)) p.cfg["retention-full" + s] = S(time ? r.range(1, 4) : r.range(1, 3));
        if (time) p.cfg["retention-full-type" + s] = "time";
        if (r.chance(0.45)) p.cfg["retention-diff" + s] = S(r.range(1, 3));
        if (r.chance(wal ? 0.6 : 0.2)) p.cfg["retention-archive" + s] = S(r.range(1, 3));
        if (r.chance(wal ? 0.6 : 0.2)) p.cfg["retention-archive-type" + s] = pick(r, {"full", "diff", "incr"});
        if (r.chance(wal ? 0.1 : yearEnd ? 0.8 : 0.4)) p.cfg["retention-history" + s] = S(r.chance(0.5) ? 0 : r.range(1, 3));
    }
    bool autoE = r.chance(0.35); p.cfg["expire-auto"] = autoE ? "y" : "n";
    p.ops.push_back(O("stanza-create"));
    int n = (int)r.range(3, th ? 9 : 7); int upAt = wal && r.chance(0.3) ? (int)r.range(1, n - 1) : -1, tliAt = r.chance(wal ? 0.5 : 0.15) ? (int)r.range(0, n - 1) : -1;
    if (yearEnd) p.ops.push_back(O("sleep", {{"ms", S(r.range(44, 46) * 86400000ll)}}));   // to the end of the year
    for (int i = 0; i < n; i++) {
        if (i == upAt) { p.ops.push_back(O("upgrade", {{"same", S(r.chance(0.3))}})); }
        if (i == tliAt) { p.ops.push_back(O("tli")); }
        if (r.chance(0.6)) p.ops.push_back(O("activity", {{"ms", S(r.range(5, 30))}}));
        if (r.chance(wal ? 0.7 : 0.3)) p.ops.push_back(O("switch", {{"n", S(r.range(1, 3))}}));
        if (time || yearEnd ? r.chance(0.6) : r.chance(0.1)) p.ops.push_back(O("sleep", {{"ms", S((int64_t)(r.unit() * 2 * 86400000))}}));
        std::string ty = i == 0 || i == upAt ? "full" : r.chance(0.3) ? "full" : r.chance(0.45) ? "diff" : "incr"; int rp = (int)r.range(1, repos);
        if (autoE) p.ops.push_back(O("expirex", {{"cmd", "backup"}, {"type", ty}, {"repo", S(rp)}}));
        else p.ops.push_back(O("backup", {{"type", ty}, {"repo", S(rp)}}));
        if (!wal && i > 0 && i + 1 == n && r.chance(0.4) && !autoE) {      // leave a partial backup behind
            Fault f; f.kind = FK_KILLTREE; f.op = (int)p.ops.size(); f.cls = C_MUT; f.nth = r.range(5, 120); f.seed = 7; p.faults.push_back(f);
            p.ops.push_back(O("backup", {{"type", pick(r, {"full", "incr"})}, {"repo", S(rp)}, {"may", "1"}})); p.ops.push_back(O("sleep", {{"ms", "2000"}}));
        }
    }
    p.ops.push_back(O("switch", {{"n", S(r.range(1, 2))}}));
    auto ex = [&](bool target) {
        SMap a = {{"xseed", S((int64_t)r.below(1000000))}};
        if (autoE && target && r.chance(0.7)) { a["cmd"] = "backup"; a["type"] = pick(r, {"full", "full", "diff", "incr"}); a["repo"] = S(r.range(1, repos)); }
        else { a["mode"] = r.chance(wal ? 0.2 : 0.35) ? "set" : r.chance(0.15) ? "oldest" : ""; if (r.chance(0.15)) a["dry"] = "1"; if (r.chance(wal ? 0.25 : 0.05)) a["before"] = "1"; if (r.chance(0.3)) a["repo"] = S(r.range(1, repos)); }
        return O("expirex", a);
    };
    addTarget(p, ex(true));
    p.ops.push_back(O("heal")); p.ops.push_back(O("expchk"));
    p.ops.push_back(O("expirex", {{"xseed", "1"}}));
    if (r.chance(0.5)) p.ops.push_back(ex(false));
    if (r.chance(0.5)) { p.ops.push_back(O("activity", {{"ms", "20"}})); p.ops.push_back(autoE ? O("expirex", {{"cmd", "backup"}, {"type", rtype(r)}, {"repo", "1"}}) : O("backup", {{"type", rtype(r)}, {"repo", "1"}})); }
    p.ops.push_back(O("checkkept"));
    p.variants = th ? 10 : 4; p.faultMix = "kill,kill,killtree,power,power,errno,errno,errno,short,term,stall,@resched,@xseed"; if (p.n("remote")) p.faultMix += ",break,power-other";
}
void genC07(Plan &p, Rng &r, bool th) { genExpire(p, r, th, false); }
void genC08(Plan &p, Rng &r, bool th) { genExpire(p, r, th, true); }
}
