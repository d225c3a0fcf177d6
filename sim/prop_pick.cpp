// C30: a backup holds exactly the files it should
#include "props.h"
#include "prop_more.h"
#include <algorithm>
#include <string.h>

namespace sim {
typedef std::vector<std::string> Args;

// The files of interest live beside those of the model: kept["lit:<path>"] = "+content" (belongs in a backup) or "-content" (does not)
static std::string onDisk(Run &run, const std::string &p)
{
    for (auto &t : run.pg->tblspc) { std::string k = "pg_tblspc/" + std::to_string(t.first) + "/"; if (p.compare(0, k.size(), k) == 0) return t.second + "/" + p.substr(k.size()); }
    return run.pg->data + "/" + p;
}
static void put(Run &run, const std::string &p, const std::string &d, bool in) { run.kept["lit:" + p] = (in ? "+" : "-") + d; }
static std::map<std::string, std::string> lits(Run &run) { std::map<std::string, std::string> m; for (auto i = run.kept.lower_bound("lit:"); i != run.kept.end() && i->first.compare(0, 4, "lit:") == 0; ++i) m[i->first.substr(4)] = i->second; return m; }

// bring the directory in line with the list; files that are right already are not touched
static void lay(Run &run, const std::map<std::string, std::string> &old)
{
    Pg *g = run.pg; std::map<std::string, std::string> now = lits(run);
    for (auto &kv : old) if (!now.count(kv.first)) fsUnlink(g->h, onDisk(run, kv.first));
    for (auto &kv : now) {
        std::string p = onDisk(run, kv.first), c, w = kv.second.substr(1); size_t s = p.rfind('/');
        if (!fsExists(g->h, p.substr(0, s))) fsMkdirs(g->h, p.substr(0, s), 1000, 1000, g->dm);
        if (!fsRead(g->h, p, c) || c != w) fsWrite(g->h, p, w, 1000, 1000);
    }
    fsSyncTree(g->h, g->data); for (auto &t : g->tblspc) fsSyncTree(g->h, t.second);
}

static void litter(Run &run, const Op &op)
{
    Pg *g = run.pg; Rng x((uint64_t)op.n("xseed") + 3030); auto old = lits(run); double keep = op.n("keep") / 100.0;
    std::map<std::string, bool> stays;                              // the files of a relation come and go together
    for (auto &kv : old) { size_t s = kv.first.rfind('/') + 1; std::string b = kv.first.substr(0, s + strspn(kv.first.c_str() + s, "0123456789")); if (b.back() == '/' || b.empty()) b = kv.first; if (!stays.count(b)) stays[b] = x.chance(keep); if (!stays[b]) run.kept.erase("lit:" + kv.first); }
    auto D = [&] { std::string c; int n = x.chance(0.15) ? 0 : (int)x.range(1, x.chance(0.1) ? 60000 : 900); for (int k = 0; k < n; k++) c += (char)('a' + x.below(x.chance(0.3) ? 26 : 2)); return c; };
    for (auto &kv : old) if (run.kept.count("lit:" + kv.first) && x.chance(0.2)) { std::string &v = run.kept["lit:" + kv.first]; for (size_t k = 1; k < v.size(); k++) v[k] = (char)('a' + (v[k] - 'a' + 1 + (k % 7)) % 26); }   // other content of the same size
    auto some = [&](double c) { return x.chance(c); };
    std::vector<std::string> dbs = {"base/1", "base/5", "base/16384"}; for (auto &t : g->tblspc) for (const char *d : {"16384", "5", "24576"}) dbs.push_back("pg_tblspc/" + std::to_string(t.first) + "/" + g->tblId() + "/" + d);
    static const char *ids[] = {"1", "17000", "17001", "9999", "99999"};
    for (auto &d : dbs) {
        if (!some(0.6)) continue;
        for (auto id : ids) if (some(0.3)) {                        // logged, unlogged, or changed from one to the other
            std::string b = d + "/" + id; bool unl = some(0.5); if (g->rels.count(b)) continue;
            for (const char *f : {"", "_fsm", "_vm", ".1", "_vm.1", "_init"}) run.kept.erase("lit:" + b + f);
            auto was = [&](const std::string &p) { auto i = old.find(p); return i != old.end() && some(0.7) ? i->second.substr(1) : D(); };
            put(run, b, was(b), !unl); for (const char *f : {"_fsm", "_vm", ".1", "_vm.1"}) if (some(0.4)) put(run, b + f, was(b + f), !unl);
            if (unl) put(run, b + "_init", D(), true);
        }
        if (some(0.3)) put(run, d + "/t3_17000", D(), false); if (some(0.3)) put(run, d + "/t12_5_fsm.1", D(), false); if (some(0.2)) put(run, d + "/t3_x17000", D(), true); if (some(0.2)) put(run, d + "/t_17000", D(), true);
        for (const char *f : {"/t3_17000x", "/xt3_17000", "/17000x", "/x17000", "/17000_fsmx", "/17000_x_init", "/17000.x", "/7_init"}) if (some(0.12)) put(run, d + f, D(), true);
        if (some(0.3)) put(run, d + "/pg_internal.init", D(), false); if (some(0.2)) put(run, d + "/pg_internal.init.4711", D(), false); if (some(0.2)) put(run, d + "/pg_internal.init.x", D(), true);
        if (some(0.3)) put(run, d + "/pgsql_tmp12.3", D(), false); if (some(0.2)) put(run, d + "/pgsql_tmp/f", D(), false);
    }
    if (some(0.4)) put(run, "global/pg_internal.init", D(), false); if (some(0.2)) put(run, "global/t3_1262", D(), false); if (some(0.2)) put(run, "base/pgsql_tmp/pgsql_tmp1.1", D(), false); if (some(0.2)) put(run, "base/1/sub/17000", D(), true);
    for (const char *d : {"pg_dynshmem", "pg_notify", "pg_replslot", "pg_serial", "pg_snapshots", "pg_stat_tmp", "pg_subtrans"}) { if (some(0.4)) put(run, std::string(d) + "/0000", D(), false); if (some(0.15)) put(run, std::string(d) + "/sub/state", D(), false); if (some(0.15)) put(run, std::string("litter/") + d + "/0000", D(), true); }
    for (const char *d : {"pg_stat", "pg_twophase", "pg_logical", "pg_commit_ts", "pg_xact", "pg_multixact/members"}) if (some(0.25)) put(run, std::string(d) + "/l000", D(), true);
    for (const char *f : {"standby.signal", "postgresql.auto.conf.tmp", "backup_label.old", "pgsql_tmpx"}) if (some(0.3)) put(run, f, D(), false);
    for (const char *f : {"backup_manifest", "backup_manifest.tmp"}) if (some(0.5)) put(run, f, D(), g->major < 13);
    for (const char *f : {"recovery.conf.sample", "pg_internal.init", "t3_17000", "17000", "17000_init", "standby.signal.bak"}) if (some(0.2)) put(run, f, D(), true);
    for (const char *f : {"litter/postmaster.pid", "litter/backup_label.old", "litter/17000", "litter/17000_init", "litter/t3_17000", "litter/pg_internal.init", "litter/a b c", "litter/sub/x=y", "litter/ex", "litter/ex1b", "litter/ex4/f"}) if (some(0.3)) put(run, f, D(), true);
    if (some(0.2)) put(run, "litter/pgsql_tmp9/f", D(), false);
    for (const char *f : {"litter/ex1/f", "litter/ex1/sub/g", "litter/ex2.txt", "litter/ex3/f", "base/1/ex5"}) if (some(0.6)) put(run, f, D(), true);   // excluded by some of the backups
    if (some(0.3)) put(run, "pg_wal/litter", D(), false); if (some(0.3)) put(run, "pg_wal/archive_status/litter.done", D(), false);
    lay(run, old);
}

static std::string compare(Run &run, const std::string &dir, const std::string &exp)
{
    size_t i = 0;
    while (i < exp.size()) {
        size_t e = exp.find('\n', i); std::string l = exp.substr(i, e - i); i = e + 1; size_t s = l.find('\t'); std::string p = l.substr(1, s - 1), c; bool have = fsRead(run.hp, dir + "/" + p, c);
        if (l[0] == '-' && have) return p + " must not be in the backup but is";
        if (l[0] == '+' && !have) return p + " is missing";
        if (l[0] == '+' && sha1hex(c) != l.substr(s + 1)) return p + fmt(" has other content (%zu bytes)", c.size());
    }
    return "";
}

static void pickCheck(Run &run, int repo, const std::string &label, const std::string &exp)
{
    bool fon = W->faultsOn; run.noFaults(); run.drainWal(); run.waitArchiver(); run.waitGetAsync();
    Run::RestoreOpt o; o.label = label; o.repo = repo; CmdRes r = run.restore(o); std::string e; Pg *save = run.pg;
    auto strip = [&] { size_t i = 0; while (i < exp.size()) { size_t e = exp.find('\n', i); std::string l = exp.substr(i, e - i); i = e + 1; if (l[0] == '+') fsUnlink(run.hp, o.dir + "/" + l.substr(1, l.find('\t') - 1)); } };   // of the files of this scenario only the model's remain
    if (!r.ok()) e = fmt("restore failed rc=%d: ", r.rc) + r.why(); else e = compare(run, o.dir, exp);
    if (e.empty()) {
        strip(); const BackupRec *m = nullptr; std::string l; fsRead(run.hp, o.dir + "/backup_label", l); for (auto y : run.models) for (auto &z : y->backups) if (z.label == l) { m = &z; run.pg = y; }
        Run::Recov rv; e = m ? run.recover(o.dir, rv, true, 0, m) : "backup_label of no backup"; if (e.empty()) e = run.checkExtras(o.dir, m->t0, m->t1);
    }
    run.pg = save; W->faultsOn = fon;
    if (!e.empty()) run.fail("files", "backup " + label + ": " + e);
    fsRemoveTree(run.hp, o.dir); fsRemoveTree(run.hp, o.dir + "-ts"); run.probe("pick-checked");
}

static void pickBackup(Run &run, int i, const Op &op)
{
    Pg *g = run.pg; Rng x((uint64_t)op.n("xseed") + 31); int repo = (int)op.n("repo", 1); (void)i;
    lay(run, {});
    // what this backup excludes
    Args a = extraArgs(op); std::set<std::string> ex; std::map<std::string, std::string> all = lits(run);
    auto out = [&](const std::string &pre) { ex.insert(pre); };
    if (x.chance(0.5)) { if (x.chance(0.6)) { a.push_back("--exclude=litter/ex1/"); out("litter/ex1/"); } if (x.chance(0.6)) { a.push_back("--exclude=litter/ex2.txt"); out("litter/ex2.txt"); } if (x.chance(0.6)) { a.push_back("--exclude=litter/ex3"); out("litter/ex3/"); } if (x.chance(0.4)) { a.push_back("--exclude=base/1/ex5"); out("base/1/ex5"); } if (x.chance(0.4)) { a.push_back("--exclude=pg_stat/"); out("pg_stat/"); } size_t n0 = extraArgs(op).size(); for (size_t k = a.size() - 1; k > n0 && a.size() > n0; k--) std::swap(a[k], a[n0 + x.below(k - n0 + 1)]); }
    std::string exp; for (auto &kv : all) { bool in = kv.second[0] == '+'; for (auto &e : ex) if (e.back() == '/' ? kv.first.compare(0, e.size(), e) == 0 : kv.first == e) in = false; exp += (in ? "+" : "-") + kv.first + "\t" + sha1hex(kv.second.substr(1)) + "\n"; }
    exp += "-postmaster.pid\t\n-postmaster.opts\t\n";
    std::set<std::string> was; for (auto &b : run.info(repo).backups) was.insert(b.label);
    // temporary files come and go while the backup runs
    auto alive = std::make_shared<bool>(true); auto xs = std::make_shared<Rng>(x.below(1000000)); std::vector<std::string> tmp = {"base/1/t7_1", "base/16384/t7_2_vm", "base/5/pgsql_tmp7.1", "base/pgsql_tmp/pgsql_tmp7.2", "pg_stat_tmp/t.stat", "pg_replslot/s7", "base/1/pg_internal.init.77", "pg_notify/0007"};
    std::function<void()> churn; auto ch = std::make_shared<std::function<void()>>();
    *ch = [g, alive, xs, tmp, ch] { if (!*alive || !g->running) return; Proc *me = W->cur; W->cur = nullptr; std::string p = g->data + "/" + tmp[xs->below(tmp.size())]; if (fsExists(g->h, p)) fsUnlink(g->h, p); else { fsMkdirs(g->h, p.substr(0, p.rfind('/')), 1000, 1000, g->dm); fsWrite(g->h, p, "temp", 1000, 1000); } W->cur = me; at(W->now + (usec)xs->range(200, 20000), *ch); };
    if (op.n("churn", 1)) (*ch)();
    for (auto &t : tmp) exp += "-" + t + "\t\n";
    if (op.n("act", 1)) g->startActivity();
    int f0 = run.faultsFired(); CmdRes r = run.backup(op.s("type"), repo, a); g->stopActivity(); *alive = false; *ch = [] {}; if (run.bad()) return;
    for (auto &t : tmp) if (fsExists(g->h, g->data + "/" + t)) fsUnlink(g->h, g->data + "/" + t);
    if (!r.ok() && run.faultsFired() == f0) { run.fail("backup", fmt("backup failed rc=%d: ", r.rc) + r.why()); return; }
    // a complete backup that an interruption kept out of the list is listed by the next one
    std::string own = r.ok() ? run.vars["label"] : "", &pend = run.kept["pend:" + S(repo)];
    for (auto &b : run.info(repo).backups) if (!was.count(b.label) && !run.kept.count("exp:" + S(repo) + b.label)) { const std::string &e = b.label == own || own.empty() ? exp : pend; if (!e.empty()) run.kept["exp:" + S(repo) + b.label] = e; }
    if (!r.ok()) pend = exp;
    if (r.ok() && !run.vars["label"].empty() && run.kept.count("exp:" + S(repo) + run.vars["label"])) { pickCheck(run, repo, run.vars["label"], exp); run.probe("pick-backup-" + op.s("type")); }
}

bool pickOp(Run &run, int i, const Op &op)
{
    if (op.name == "litter") { litter(run, op); return true; }
    if (op.name == "pickbackup") { pickBackup(run, i, op); return true; }
    if (op.name == "pickall") {
        for (int k = 1; k <= run.repos && !run.bad(); k++) { RepoInfo ri = run.info(k); if (!ri.ok) { run.fail("info", "info failed: " + ri.raw.substr(0, 500)); return true; } for (auto &b : ri.backups) if (run.kept.count("exp:" + S(k) + b.label)) { pickCheck(run, k, b.label, run.kept["exp:" + S(k) + b.label]); if (run.bad()) return true; } }
        return true;
    }
    return false;
}

GEN(C30)
{
    (void)th; swarm(p, r, {.small = true}); auto X = [&] { return S((int64_t)r.below(1000000000)); };
    if (r.chance(0.3)) p.cfg["pgver"] = pick(r, {"12", "13"}); p.cfg["checksums"] = "0"; p.cfg["rels"] = S(r.range(2, 5)); p.cfg["maxpages"] = "4"; p.cfg["qdelay"] = pick(r, {"500", "2000", "20000"}); p.cfg.erase("links"); p.cfg.erase("clockoff"); if (r.chance(0.6)) p.cfg["tblspc"] = S(r.range(1, 2));
    p.ops.push_back(O("stanza-create")); int n = (int)r.range(2, 4), tgt = (int)r.range(0, n - 1), repos = (int)p.n("repos", 1); bool mix = r.chance(0.25);
    for (int q = 0; q < n; q++) {
        p.ops.push_back(O("litter", {{"xseed", X()}, {"keep", pick(r, {"0", "50", "90", "100"})}}));
        if (r.chance(0.3)) p.ops.push_back(O("activity", {{"ms", S(r.range(5, 100))}}));
        std::string rp = S(r.range(1, repos)), ty = q == 0 ? "full" : rtype(r);
        Op b = O("pickbackup", {{"type", ty}, {"repo", rp}, {"xseed", X()}, {"act", S(r.below(2))}, {"churn", S(r.below(2))}});
        if (mix && r.chance(0.6)) { std::string a = backupOpts(r, rp); if (!a.empty()) b.a["args"] = a; }
        if (q == tgt) {
            addTarget(p, b); p.ops.push_back(O("heal"));
            if (r.chance(0.7)) { if (r.chance(0.7)) p.ops.push_back(O("litter", {{"xseed", X()}, {"keep", pick(r, {"50", "90", "100"})}})); b.a["xseed"] = X(); p.ops.push_back(b); }   // resumed, should it have been interrupted
        } else p.ops.push_back(b);
    }
    p.ops.push_back(O("pickall"));
    p.variants = 6; p.faultMix = "@xseed,@resched,kill,killtree,errno,term,power"; if (r.chance(0.4)) p.faultMix = "@xseed,@resched,@xseed";
}
}
