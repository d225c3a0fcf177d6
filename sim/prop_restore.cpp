// C10 resume, C11 delta restore, C12 interrupted restore, C13 corruption at rest, C14 redundant info files
#include "props.h"
#include "prop_more.h"
#include <algorithm>
#include <csignal>

namespace sim {

//-- verify ---------------------------------------------------------------------------------------------------------------------------
VerifyRes verifyRepo(Run &run, int repo)
{
    VerifyRes v; run.waitArchiver();
    CmdRes r = run.quiet(run.repoHost(repo), {"--stanza=demo", "verify", "--repo=" + S(repo), "--output=text", "--verbose", "--log-level-console=warn"});
    v.text = r.all(); v.done = r.done; v.rc = r.rc;
    v.ok = r.ok() && v.text.find("status: ok") != std::string::npos && v.text.find("status: error") == std::string::npos && v.text.find("status: invalid") == std::string::npos;
    return v;
}

static std::string stripLine(const std::string &l, const std::string &what) { std::string r; size_t i = 0; while (i < l.size()) { size_t e = l.find('\n', i); std::string s = l.substr(i, e - i); if (s.compare(0, what.size(), what) != 0) r += s + "\n"; i = e + 1; } return r; }
// listing of a restored cluster; the recovery settings carry a comment with the time of the restore, which is taken out
static std::string listing(Run &run, const std::string &dir)
{
    std::string l = fsHashTree(run.hp, dir, true) + "--\n" + (fsLookup(run.hp, dir + "-ts") ? fsHashTree(run.hp, dir + "-ts", true) : "");
    for (const char *f : {"/postgresql.auto.conf", "/recovery.conf"}) {
        std::string c, o; if (!fsRead(run.hp, dir + f, c)) continue;
        size_t i = 0; while (i < c.size()) { size_t e = c.find('\n', i); if (e == std::string::npos) e = c.size(); if (c[i] != '#') o += c.substr(i, e - i) + "\n"; i = e + 1; }
        l = stripLine(l, std::string(f) + " ") + f + " = " + sha1hex(o) + "\n";
    }
    return l;
}
static std::string firstDiff(const std::string &a, const std::string &b)
{
    std::set<std::string> x, y; auto split = [](const std::string &s, std::set<std::string> &o) { size_t i = 0; while (i < s.size()) { size_t e = s.find('\n', i); o.insert(s.substr(i, e - i)); i = e + 1; } };
    split(a, x); split(b, y); std::string r; int n = 0;
    for (auto &l : x) if (!y.count(l) && n++ < 4) r += " -[" + l + "]";
    n = 0; for (auto &l : y) if (!x.count(l) && n++ < 4) r += " +[" + l + "]";
    return r;
}

// damage to a cluster directory between two restores
static void mutateTree(Run &run, const std::string &dir, Rng &x, bool keepTime)
{
    std::vector<std::pair<std::string, Inode *>> files; std::vector<std::string> dirs;
    for (auto &root : {dir, dir + "-ts"}) if (fsLookup(run.hp, root)) fsWalk(run.hp, root, [&](const std::string &p, Inode *i) {
        if (i->type == TFile) files.push_back({p, i}); else if (i->type == TDir && (root == dir || p.find("/PG_") != std::string::npos)) dirs.push_back(p); });
    int n = (int)x.range(1, 12);
    for (int k = 0; k < n && !files.empty(); k++) {
        auto f = files[x.below(files.size())]; std::string base = f.first.substr(f.first.rfind('/') + 1); if (!fsLookup(run.hp, f.first, false)) continue;
        if (base == "PG_VERSION" && x.chance(0.9)) continue;         // without it the directory is not recognized as a cluster
        int64_t mt = f.second->mtime; std::string d = *f.second->data;
        switch (x.below(9)) {
            case 0: fsUnlink(run.hp, f.first); break;
            case 1: if (!d.empty()) { d.resize(x.below(d.size())); fsWrite(run.hp, f.first, d, 1000, 1000); } break;
            case 2: { size_t z = x.below(30000) + 1; d += std::string(z, (char)('A' + x.below(26))); fsWrite(run.hp, f.first, d, 1000, 1000); break; }
            case 3: case 4: if (!d.empty()) { d[x.below(d.size())] ^= (char)(1 + x.below(255)); Inode *i = fsWrite(run.hp, f.first, d, 1000, 1000); if (keepTime && x.chance(0.5)) i->mtime = mt; else i->mtime = mt + 1 + (int64_t)x.below(1000); } break;
            case 5: { std::string p = dirs[x.below(dirs.size())] + "/" + pick(x, {"99999", "junk", "16400.1", "t1_2", "pgsql_tmp", "backup_label.old"}); fsWrite(run.hp, p, std::string(x.below(9000), 'j'), 1000, 1000); break; }
            case 6: { std::string p = dirs[x.below(dirs.size())] + "/jd"; fsMkdirs(run.hp, p + "/sub", 1000, 1000, 0700); fsWrite(run.hp, p + "/sub/x", "x", 1000, 1000); break; }
            case 7: f.second->mode = (f.second->mode & ~0777u) | (x.chance(0.5) ? 0640 : 0400); break;
            case 8: { std::string p = dirs[x.below(dirs.size())]; if (p != dir && p != dir + "-ts" && p.find("-ts/") == std::string::npos && p.find("/global") == std::string::npos && x.chance(0.4)) { fsRemoveTree(run.hp, p); } break; }
        }
    }
    if (x.chance(0.15)) fsSymlink(run.hp, "/etc/passwd", dir + "/base/1/lnk", 1000, 1000);
}

//-- generators -----------------------------------------------------------------------------------------------------------------------
void genC10(Plan &p, Rng &r, bool th)
{
    swarm(p, r, {}); if (r.chance(0.7)) { p.cfg["bundle"] = "0"; p.cfg.erase("block"); }
    if (p.n("bundle") && p.n("block") && r.chance(0.7)) p.cfg["bundle-limit"] = "8KiB";
    p.cfg["manifest-save-threshold"] = pick(r, {"1", "1", "20KiB", "100KiB"}); p.cfg["rels"] = S(r.range(5, 12)); p.cfg["expire-auto"] = "n";
    history(p, r, (int)r.below(3), false);
    std::string repo = S(r.range(1, p.n("repos")));
    auto opts = [&] { return r.chance(0.1) ? std::string(" --no-resume") : r.chance(0.25) ? std::string() : backupOpts(r, repo); };
    addTarget(p, O("backup", {{"type", "full"}, {"repo", repo}, {"args", opts()}}));
    p.ops.push_back(O("heal"));
    int again = (int)r.below(3);
    for (int k = 0; k <= again; k++) {
        if (r.chance(0.7)) p.ops.push_back(O("activity", {{"ms", S(r.range(5, 400))}}));
        if (r.chance(0.5)) p.ops.push_back(O("mutpart", {{"repo", repo}, {"xseed", S((int64_t)r.below(1000000))}}));
        if (r.chance(0.3)) p.ops.push_back(O("sleep", {{"ms", S(r.range(500, 90000))}}));
        if (k < again) p.ops.push_back(O("killbackup", {{"repo", repo}, {"type", r.chance(0.8) ? "full" : rtype(r)}, {"args", opts()}, {"xseed", S((int64_t)r.below(1000000))}}));
    }
    p.ops.push_back(O("backup", {{"type", r.chance(0.85) ? "full" : rtype(r)}, {"repo", repo}, {"must", "1"}, {"args", opts()}}));
    if (r.chance(0.5)) { p.ops.push_back(O("activity", {{"ms", S(r.range(5, 200))}})); p.ops.push_back(O("backup", {{"type", rtype(r)}, {"repo", repo}, {"must", "1"}})); }
    p.ops.push_back(O("checkall")); p.ops.push_back(O("verifyok"));
    p.variants = 12; p.faultMix = "kill,kill,killtree,killtree,errno,term,power,full,@resched"; if (p.n("remote")) p.faultMix += ",break,power-other"; (void)th;
}
void genC11(Plan &p, Rng &r, bool)
{
    swarm(p, r, {});
    history(p, r, (int)r.range(2, 4), false);
    addTarget(p, O("delta1", {{"repo", S(r.range(1, p.n("repos")))}, {"xseed", S((int64_t)r.below(1000000))}, {"force", S(r.chance(0.3))}, {"chain", S(r.range(1, 3))}}));
    p.variants = 6; p.faultMix = "@xseed,@xseed,@resched,lag";
}
void genC12(Plan &p, Rng &r, bool)
{
    swarm(p, r, {}); p.cfg["meta"] = S(r.chance(0.5));
    history(p, r, (int)r.range(1, 3), false);
    std::string repo = S(r.range(1, p.n("repos")));
    p.ops.push_back(O("prep12", {{"mode", pick(r, {"empty", "empty", "old", "mutated"})}, {"repo", repo}, {"xseed", S((int64_t)r.below(1000000))}}));
    addTarget(p, O("restore12", {{"repo", repo}, {"xseed", S((int64_t)r.below(1000000))}}));
    p.ops.push_back(O("check12", {{"repo", repo}, {"vseed", S((int64_t)r.below(1000000))}}));
    p.variants = 16; p.faultMix = "kill,kill,killtree,power,power,power,errno,errno,short,term,full,@resched"; if (p.n("remote")) p.faultMix += ",break";
}
void genC13(Plan &p, Rng &r, bool)
{
    swarm(p, r, {}); p.cfg["archive-copy"] = "0";
    history(p, r, (int)r.range(1, 3), false);
    p.ops.push_back(O("base13"));
    addTarget(p, O("corrupt", {{"repo", S(r.range(1, p.n("repos")))}, {"xseed", S((int64_t)r.below(1000000))}, {"n", S(r.chance(0.7) ? 1 : r.range(2, 4))}}));
    p.ops.push_back(O("check13"));
    p.variants = 10; p.faultMix = "@xseed";
}
void genC14(Plan &p, Rng &r, bool)
{
    swarm(p, r, {}); p.cfg["expire-auto"] = "n";
    history(p, r, (int)r.range(1, 3), false);
    p.ops.push_back(O("drain")); p.ops.push_back(O("base13"));
    addTarget(p, O("infodamage", {{"repo", S(r.range(1, p.n("repos")))}, {"xseed", S((int64_t)r.below(1000000))}}));
    p.ops.push_back(O("check14"));
    p.variants = 10; p.faultMix = "@xseed";
}

//-- operations -----------------------------------------------------------------------------------------------------------------------
static BkInfo pickBackup(Run &run, int repo, Rng &x) { RepoInfo ri = run.info(repo); if (ri.backups.empty()) return BkInfo(); return ri.backups[x.below(ri.backups.size())]; }
static int repoWithBackup(Run &run, int repo) { if (!run.info(repo).backups.empty()) return repo; for (int r = 1; r <= run.repos; r++) if (!run.info(r).backups.empty()) return r; return 0; }

// damage: returns description
static std::string damageFile(Run &run, Host *h, const std::string &path, Rng &x, bool allowDelete, const std::vector<std::string> &others)
{
    Inode *i = fsLookup(h, path); if (!i || i->type != TFile) return "";
    std::string d = *i->data; uid_t u = i->uid; unsigned m = i->mode; std::string what;
    // other names of the same file (hard links) are damaged too: the inode is written in place
    auto put = [&](const std::string &s) { i->data = std::make_shared<std::string>(s); i->gen++; (void)u; (void)m; };
    switch (x.below(allowDelete ? 7 : 6)) {
        case 0: case 1: case 2: if (d.empty()) { put("x"); what = "grown"; break; } { size_t n = x.chance(0.5) ? 1 : x.range(2, 64); size_t at = x.below(d.size()); for (size_t k = 0; k < n && at + k < d.size(); k++) d[at + k] ^= (char)(1 + x.below(255)); put(d); what = fmt("bytes changed at %zu of %zu", at, d.size()); } break;
        case 3: if (d.empty()) { put("xx"); what = "grown"; break; } d.resize(x.below(d.size())); put(d); what = fmt("truncated to %zu", d.size()); break;
        case 4: put(d + std::string(1 + x.below(5000), (char)x.below(256))); what = "appended"; break;
        case 5: { if (others.empty()) { put(""); what = "emptied"; break; } std::string o = others[x.below(others.size())]; Inode *j = fsLookup(h, o); if (!j || j == i || *j->data == d) { put(""); what = "emptied"; } else { put(*j->data); what = "replaced by " + o; } } break;
        case 6: fsUnlink(h, path); what = "deleted"; break;
    }
    return path + " " + what;
}

bool restoreOp(Run &run, int i, const Op &op)
{
    Host *hp = run.hp;
    if (op.name == "verifyok") {
        for (int r = 1; r <= run.repos && !run.bad(); r++) {
            VerifyRes v = verifyRepo(run, r);
            if (!v.done) run.fail("verify-hang", "verify did not terminate");
            else if (!v.ok) run.fail("verify", fmt("verify reports errors for an undamaged repo%d: ", r) + v.text.substr(0, 1200));
            run.probe("verify-ok");
        }
        return true;
    }
    if (op.name == "killbackup") {                                  // a backup killed after a random number of scheduling steps
        Rng x((uint64_t)op.n("xseed") + 3);
        std::vector<std::string> a = {"--stanza=demo", "backup", "--repo=" + op.s("repo"), "--type=" + op.s("type")}; for (auto &y : extraArgs(op)) a.push_back(y);
        run.pg->startActivity();
        Proc *q = run.start(run.repoHost((int)op.n("repo")), a, "/", i); int64_t n = x.range(200, x.chance(0.5) ? 6000 : 60000);
        std::set<std::string> was; for (auto &b : run.info((int)op.n("repo")).backups) was.insert(b.label);
        runUntil([&] { return q->exited || --n <= 0; }, 600000000ll);
        bool killed = !q->exited;
        if (killed) { for (auto h : W->hosts) killHost(h); run.probe("kill-midway"); }
        run.pg->stopActivity(); run.heal();
        for (auto &b : run.info((int)op.n("repo")).backups) if (!was.count(b.label)) run.completed[op.n("repo")].insert(b.label);
        return true;
    }
    if (op.name == "mutpart") {                                     // damage the files of a partial backup, as an unclean shutdown would
        Rng x((uint64_t)op.n("xseed") + 5); Host *h = run.repoHost((int)op.n("repo")); std::string base = run.repoPath((int)op.n("repo")) + "/backup/demo"; uid_t u = run.repoUid((int)op.n("repo"));
        for (auto &l : fsList(h, base)) {
            std::string d = base + "/" + l; Inode *di = fsLookup(h, d, false); if (!di || di->type != TDir || l[0] != '2' || fsExists(h, d + "/backup.manifest")) continue;
            std::vector<std::string> fs; fsWalk(h, d, [&](const std::string &p, Inode *ino) { if (ino->type == TFile) fs.push_back(p); });
            int n = (int)x.below(5);
            for (int k = 0; k < n && !fs.empty(); k++) {
                std::string f = fs[x.below(fs.size())]; bool man = f.find("backup.manifest") != std::string::npos;
                if (man && !x.chance(0.1)) continue;
                if (Inode *ino = fsLookup(h, f)) if (ino->nlink > 1) continue;   // shared with a complete backup
                if (!damageFile(run, h, f, x, true, fs).empty()) run.probe("partial-damaged");
            }
            if (x.chance(0.2)) fsWrite(h, d + "/pg_data/junk.lz4", "junk", u, u, 0640);
            if (x.chance(0.1)) { fsMkdirs(h, d + "/pg_data/jdir", u, u, 0750); fsWrite(h, d + "/pg_data/jdir/f", "junk", u, u, 0640); }
            if (x.chance(0.1) && fsLookup(h, d + "/pg_data/base")) fsRemoveTree(h, d + "/pg_data/base");
        }
        return true;
    }

    //-- C11 -------------------------------------------------------------------------------------------------------------------------
    if (op.name == "delta1") {
        run.drainWal(); int repo = repoWithBackup(run, (int)op.n("repo", 1)); if (!repo) return true;
        Rng x((uint64_t)op.n("xseed") + 9); std::string dir = "/restore/same"; bool force = op.n("force");
        BkInfo b = pickBackup(run, repo, x);
        auto wipe = [&] { fsRemoveTree(hp, dir); fsRemoveTree(hp, dir + "-ts"); fsMkdirs(hp, dir, 1000, 1000, 0700); };
        std::vector<std::string> ex; if (x.chance(0.2)) ex.push_back("--type=none");
        wipe(); Run::RestoreOpt o; o.dir = dir; o.label = b.label; o.repo = repo; o.extra = ex; CmdRes r = run.restore(o);
        if (!r.ok()) { run.fail("restore", fmt("restore failed rc=%d: ", r.rc) + r.why()); return true; }
        std::string want = listing(run, dir);
        bool keep = x.chance(0.5);
        for (int c = 0; c < op.n("chain", 1) && !run.bad(); c++) {
            if (!keep || c == 0) {
                BkInfo a = force ? b : pickBackup(run, repo, x);    // --force compares size and time only
                if (x.chance(0.8)) { wipe(); Run::RestoreOpt oa; oa.dir = dir; oa.label = a.label; oa.repo = repo; r = run.restore(oa); if (!r.ok()) { run.fail("restore", fmt("restore failed rc=%d: ", r.rc) + r.why()); return true; } }
            }
            mutateTree(run, dir, x, !force);
            // without PG_VERSION and backup.manifest the directory is not recognized: the restore must refuse and change nothing
            bool known = fsExists(hp, dir + "/PG_VERSION") || fsExists(hp, dir + "/backup.manifest");
            std::string before = known ? "" : listing(run, dir);
            Run::RestoreOpt od; od.dir = dir; od.label = b.label; od.repo = repo; od.extra = ex; od.delta = !force || x.chance(0.5); od.force = force; od.fault = true; r = run.restore(od);
            if (!r.done) { run.fail("restore", "delta restore did not terminate"); return true; }
            if (!known) {
                if (r.ok()) run.fail("delta-unknown", "delta restore into a directory that is not a cluster did not refuse");
                else if (listing(run, dir) != before) run.fail("delta-unknown", "refused restore changed the directory:" + firstDiff(before, listing(run, dir)));
                wipe(); break;
            }
            if (!r.ok()) { run.fail("restore", fmt("delta restore failed rc=%d: ", r.rc) + r.why()); return true; }
            std::string got = listing(run, dir);
            if (got != want) run.fail("delta-differs", "delta restore of " + b.label + " differs from a fresh restore:" + firstDiff(want, got));
            run.probe("delta-compared"); if (force) run.probe("delta-force");
        }
        fsRemoveTree(hp, dir); fsRemoveTree(hp, dir + "-ts");
        return true;
    }

    //-- C12 -------------------------------------------------------------------------------------------------------------------------
    if (op.name == "prep12") {
        run.drainWal(); int repo = repoWithBackup(run, (int)op.n("repo", 1)); Rng x((uint64_t)op.n("xseed") + 21); std::string dir = "/restore/t"; run.vars["mode"] = op.s("mode");
        fsMkdirs(hp, dir, 1000, 1000, 0700);
        if (op.s("mode") != "empty" && repo) {
            Run::RestoreOpt o; o.dir = dir; o.label = pickBackup(run, repo, x).label; o.repo = repo; CmdRes r = run.restore(o);
            if (!r.ok()) { run.fail("restore", fmt("restore failed rc=%d: ", r.rc) + r.why()); return true; }
            if (op.s("mode") == "mutated") { mutateTree(run, dir, x, true); if (!fsExists(hp, dir + "/PG_VERSION")) fsWrite(hp, dir + "/PG_VERSION", "16\n", 1000, 1000); }
        }
        syncHost(hp);
        run.vars["pre"] = stripLine(listing(run, dir), "/backup.manifest");
        return true;
    }
    if (op.name == "restore12") {
        int repo = repoWithBackup(run, (int)op.n("repo", 1)); Rng x((uint64_t)op.n("xseed") + 22); if (!repo) return true;
        Run::RestoreOpt o; o.dir = "/restore/t"; o.label = pickBackup(run, repo, x).label; o.repo = repo; o.delta = run.vars["mode"] != "empty" || x.chance(0.3); o.fault = true;
        run.vars["label"] = o.label; run.last = run.restore(o); run.vars["ok"] = run.last.ok() ? "1" : "0"; run.vars["ran"] = "1";
        run.probe(run.last.ok() ? "restore-ok" : "restore-interrupted");
        return true;
    }
    if (op.name == "check12") {
        run.heal(); if (run.vars["ran"] != "1") return true;
        int repo = repoWithBackup(run, (int)op.n("repo", 1)); std::string dir = "/restore/t", label = run.vars["label"];
        bool ok = run.vars["ok"] == "1";
        // a device that refuses both the sync of a file and the truncation that follows gives restore no way to tell a later attempt: not judged
        bool stuck = false; for (auto &f : W->faults) if (f.kind == FK_ERRNO && f.fired >= 2) stuck = true;
        if (ok && !stuck) { powerCrash(hp, (uint64_t)op.n("vseed")); W->stats.faults[FK_POWER]++; run.sleepFor(500000); }
        run.waitArchiver(); run.waitGetAsync();
        auto full = [&]() -> std::string {
            std::string bl; fsRead(hp, dir + "/backup_label", bl); const BackupRec *m = nullptr; for (auto &y : run.pg->backups) if (y.label == bl) m = &y;
            if (!m) return "backup_label is not the one of a backup";
            Run::Recov rv; std::string e = run.recover(dir, rv, true, 0, m); if (e.empty()) e = run.checkExtras(dir, m->t0, m->t1);
            for (auto &y : run.info(repo).backups) if (y.label == label && e.empty() && y.startLsn != m->startLsn) e = "another backup than requested was restored";
            return e; };
        if (ok) { std::string e = full(); if (!e.empty()) { run.fail("restore-durable", "restore returned success but after a power loss the cluster is not complete: " + e); return true; } run.probe("restore-durable"); }
        else if (fsExists(hp, dir + "/global/pg_control")) {
            std::string now = stripLine(listing(run, dir), "/backup.manifest");
            if (run.vars["mode"] == "empty" || now != run.vars["pre"]) {
                std::string save = now; std::string e = full();
                if (!e.empty()) { run.fail("control-early", "interrupted restore left pg_control in an incomplete cluster: " + e + (run.vars["mode"] == "empty" ? "" : " changed:" + firstDiff(run.vars["pre"], now))); return true; }
                run.probe("complete-anyway");
            } else run.probe("untouched");
        }
        if (!ok) {                                                  // repeat the restore
            run.waitGetAsync();
            Run::RestoreOpt o; o.dir = dir; o.label = label; o.repo = repo; o.delta = true; CmdRes r = run.restore(o);
            if (!r.ok() && r.done && !fsExists(hp, dir + "/PG_VERSION") && !fsExists(hp, dir + "/backup.manifest")) {
                // interrupted while the empty directories were being made: the directory is not recognized yet, no file may be in it and the restore works once it is emptied
                int files = 0; for (auto &root : {dir, dir + "-ts"}) if (fsLookup(hp, root)) fsWalk(hp, root, [&](const std::string &f, Inode *ino) { if (ino->type == TFile && f.find("/backup.manifest.") == std::string::npos) files++; });
                if (files) { run.fail("restore-rerun", fmt("interrupted restore left %d files but no PG_VERSION or backup.manifest, repeating it with --delta failed rc=%d: ", files, r.rc) + r.why()); return true; }
                run.probe("rerun-refused-empty"); fsRemoveTree(hp, dir); fsRemoveTree(hp, dir + "-ts"); fsMkdirs(hp, dir, 1000, 1000, 0700); r = run.restore(o);
            }
            if (!r.ok()) { run.fail("restore-rerun", fmt("repeating an interrupted restore with --delta failed rc=%d: ", r.rc) + r.why()); return true; }
            std::string e = full(); if (!e.empty()) { run.fail("restore-rerun", "repeated restore is not complete: " + e); return true; }
            run.probe("rerun-ok");
        }
        fsRemoveTree(hp, dir); fsRemoveTree(hp, dir + "-ts");
        return true;
    }

    //-- C13 / C14 -------------------------------------------------------------------------------------------------------------------
    if (op.name == "base13") {
        run.drainWal(); run.waitArchiver();
        for (int r = 1; r <= run.repos && !run.bad(); r++) {
            VerifyRes v = verifyRepo(run, r); if (!v.ok) { run.fail("verify-false", fmt("verify reports errors for an undamaged repo%d: ", r) + v.text.substr(0, 1200)); return true; }
            for (auto &b : run.info(r).backups) {
                std::string dir = "/restore/c13"; fsMkdirs(hp, dir, 1000, 1000, 0700); Run::RestoreOpt o; o.dir = dir; o.label = b.label; o.repo = r; CmdRes c = run.restore(o);
                if (!c.ok()) { run.fail("restore", fmt("restore failed rc=%d: ", c.rc) + c.why()); return true; }
                run.kept[fmt("r%d/", r) + b.label] = listing(run, dir); fsRemoveTree(hp, dir); fsRemoveTree(hp, dir + "-ts");
            }
        }
        return true;
    }
    if (op.name == "corrupt") {
        Rng x((uint64_t)op.n("xseed") + 31); int repo = (int)op.n("repo", 1); Host *h = run.repoHost(repo); std::string rp = run.repoPath(repo);
        std::vector<std::string> bk, wal;
        fsWalk(h, rp + "/backup/demo", [&](const std::string &p, Inode *ino) { if (ino->type == TFile && p.find("backup.manifest") == std::string::npos && p.find("backup.info") == std::string::npos && p.find("backup.history") == std::string::npos) bk.push_back(p); });
        fsWalk(h, rp + "/archive/demo", [&](const std::string &p, Inode *ino) { std::string b = p.substr(p.rfind('/') + 1); if (ino->type == TFile && b.size() > 24 && b.find("archive.info") == std::string::npos && b.find(".partial") == std::string::npos && b.find(".history") == std::string::npos && b.find(".backup") == std::string::npos) wal.push_back(p); });
        std::string d;
        for (int k = 0; k < op.n("n", 1); k++) {
            bool w = bk.empty() || (!wal.empty() && x.chance(0.3)); auto &v = w ? wal : bk; if (v.empty()) break;
            std::string f = v[x.below(v.size())]; d += damageFile(run, h, f, x, !w, v) + "; ";
            run.probe(w ? "corrupt-wal" : "corrupt-backup");
        }
        run.vars["damage"] = d; run.vars["repo"] = S(repo); logf("damage: %s", d.c_str());
        return true;
    }
    if (op.name == "check13") {
        int repo = atoi(run.vars["repo"].c_str()); if (!repo) return true; std::string trouble;
        for (auto &b : run.info(repo).backups) {
            std::string dir = "/restore/c13"; fsMkdirs(hp, dir, 1000, 1000, 0700); Run::RestoreOpt o; o.dir = dir; o.label = b.label; o.repo = repo; CmdRes c = run.restore(o);
            if (!c.done) { run.fail("restore-hang", "restore did not terminate, damage: " + run.vars["damage"] + W->stuckWhy); return true; }
            if (c.sig || c.rc > 128) { run.fail("restore-crash", fmt("restore crashed rc=%d, damage: ", c.rc) + run.vars["damage"]); return true; }
            if (c.ok()) { std::string got = listing(run, dir), want = run.kept[fmt("r%d/", repo) + b.label];
                if (got != want) { run.fail("silent-corruption", "restore of " + b.label + " returned success with wrong content:" + firstDiff(want, got) + ", damage: " + run.vars["damage"]); return true; } run.probe("restore-still-ok"); }
            else { trouble = "restore of " + b.label + fmt(" fails rc=%d", c.rc); run.probe("restore-refused"); }
            fsRemoveTree(hp, dir); fsRemoveTree(hp, dir + "-ts");
        }
        for (auto &f : run.pg->acked) if (f.size() == 24) { std::string out; int rc; std::string e = run.getWal(f, repo, out, &rc); if (!e.empty() || out != run.pg->walContent[f]) { trouble = "WAL " + f + " cannot be retrieved (" + e.substr(0, 200) + ")"; run.probe("wal-damaged"); } }
        VerifyRes v = verifyRepo(run, repo);
        if (!v.done) run.fail("verify-hang", "verify did not terminate");
        else if (!trouble.empty() && v.ok) run.fail("verify-missed", "verify reports no error although " + trouble + ", damage: " + run.vars["damage"]);
        run.probe(v.ok ? "verify-ok" : "verify-error");
        return true;
    }
    if (op.name == "infodamage") {
        Rng x((uint64_t)op.n("xseed") + 41); int repo = (int)op.n("repo", 1); Host *h = run.repoHost(repo); std::string rp = run.repoPath(repo), d; std::vector<BkInfo> bs = run.info(repo).backups;
        std::vector<std::string> which = {rp + "/backup/demo/backup.info", rp + "/archive/demo/archive.info"}; bool man = false;
        if (!bs.empty() && x.chance(0.5)) { which = {rp + "/backup/demo/" + bs[x.below(bs.size())].label + "/backup.manifest"}; man = true; }
        for (auto &w : which) if (man || x.chance(0.7)) {
            bool copy = x.chance(0.4); std::string f = w + (copy ? ".copy" : "");
            if (!man && x.chance(0.25)) { fsUnlink(h, f); d += f + " deleted; "; } else d += damageFile(run, h, f, x, false, {}) + "; ";
        }
        run.vars["damage"] = d; run.vars["repo"] = S(repo); logf("damage: %s", d.c_str());
        return true;
    }
    if (op.name == "check14") {
        int repo = atoi(run.vars["repo"].c_str()); if (!repo) return true; std::string why = ", damage: " + run.vars["damage"];
        RepoInfo ri = run.info(repo); if (!ri.ok) { CmdRes e = run.quiet(run.repoHost(repo), {"--stanza=demo", "info", "--repo=" + S(repo), "--log-level-console=warn"}); run.fail("info", fmt("info failed rc=%d: ", e.rc) + e.why() + why); return true; }
        std::set<std::string> have; for (auto &b : ri.backups) have.insert(b.label);
        for (auto &l : run.completed[repo]) if (!have.count(l)) { run.fail("info", "backup " + l + " is no longer listed" + why); return true; }
        auto restoreAll = [&](const char *when) { run.waitArchiver();
            for (auto &l : have) {
                std::string key = fmt("r%d/", repo) + l; if (!run.kept.count(key)) continue;
                std::string dir = "/restore/c13"; fsMkdirs(hp, dir, 1000, 1000, 0700); Run::RestoreOpt o; o.dir = dir; o.label = l; o.repo = repo; CmdRes c = run.restore(o);
                if (!c.ok()) { run.fail("restore", std::string(when) + fmt(": restore failed rc=%d: ", c.rc) + c.why() + why); return; }
                if (listing(run, dir) != run.kept[key]) { run.fail("restore", std::string(when) + ": restore of " + l + " differs" + why); return; }
                fsRemoveTree(hp, dir); fsRemoveTree(hp, dir + "-ts"); run.probe("restore-checked");
            } };
        restoreAll("with one copy damaged"); if (run.bad()) return true;
        std::vector<std::string> miss = run.missingAcked(repo); if (!miss.empty()) { run.fail("acked", "archive-get fails: " + miss[0] + why); return true; }
        run.pg->writePage(run.pg->pickRel(), 0); run.pg->switchWal(); if (!run.drainWal(300000000ll)) { run.fail("push", "archive-push fails: " + run.pg->lastPushErr.substr(0, 600) + why); return true; }
        CmdRes c = run.backup("incr", repo); if (!c.ok()) { run.fail("backup", fmt("backup failed rc=%d: ", c.rc) + c.why() + why); return true; }
        c = run.quiet(run.repoHost(repo), {"--stanza=demo", "expire", "--repo=" + S(repo)}); if (!c.ok()) { run.fail("expire", fmt("expire failed rc=%d: ", c.rc) + c.why() + why); return true; }
        ri = run.info(repo); have.clear(); for (auto &b : ri.backups) have.insert(b.label);
        for (auto &l : run.completed[repo]) if (!have.count(l)) { run.fail("info", "backup " + l + " is no longer listed after the next backup" + why); return true; }
        restoreAll("after the next backup"); if (run.bad()) return true;
        std::string e = run.checkListed("after the next backup"); if (!e.empty()) run.fail("restore", e + why);
        run.probe("info-damage-survived");
        return true;
    }
    return false;
}
}
