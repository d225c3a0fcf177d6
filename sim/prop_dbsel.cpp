// C27: selective restore of databases
#include "props.h"
#include "prop_more.h"
#include <algorithm>

namespace sim {

typedef std::vector<std::string> Args;
struct Ent { ItemType type; unsigned mode; int64_t mtime; std::string data; };
static void tree(Host *h, const std::string &dir, const std::string &rel, std::map<std::string, Ent> &out, int depth = 0)   // links followed
{
    Inode *d = fsLookup(h, dir); if (!d || d->type != TDir || depth > 12) return;
    for (auto &e : fsList(h, dir)) {
        std::string p = dir + "/" + e, r = rel.empty() ? e : rel + "/" + e; Inode *i = fsLookup(h, p); if (!i) { out[r] = {TLink, 0, 0, ""}; continue; }
        out[r] = {i->type, i->mode & 07777, i->mtime, i->type == TFile ? *i->data : ""};
        if (i->type == TDir) tree(h, p, r, out, depth + 1);
    }
}
static std::string dbOf(const std::string &rel, const std::string &ver)   // database a file belongs to
{
    auto seg = [&](size_t from) { size_t e = rel.find('/', from); return e == std::string::npos ? std::string() : rel.substr(from, e - from); };
    if (rel.compare(0, 5, "base/") == 0) return seg(5);
    if (rel.compare(0, 10, "pg_tblspc/") == 0) { size_t a = rel.find('/', 10); if (a == std::string::npos) return ""; std::string v = seg(a + 1); if (v != ver) return ""; return seg(a + 1 + v.size() + 1); }
    return "";
}

static void dbsel(Run &run, int i, const Op &op)
{
    Pg *g = run.pg; Host *h = run.hp; Rng x((uint64_t)op.n("xseed") + 717); std::string kind = op.s("kind");
    if (!g->running) return;
    g->stopActivity(); run.drainWal(); run.waitArchiver(); run.waitGetAsync(); g->archiverOn = false; run.settle(300000000ll); W->stuckWhy.clear();
    struct Back { Pg *g; ~Back() { if (g->running) { g->archiverOn = true; g->archiverKick(); } } } back{g};
    std::vector<BkInfo> all; int cur = (int)run.models.size();
    for (int r = 1; r <= run.repos; r++) { RepoInfo ri = run.info(r); if (!ri.ok) { run.fail("info", "info failed: " + ri.raw.substr(0, 300)); return; } for (auto &b : ri.backups) if (b.dbId == cur) all.push_back(b); }
    if (all.empty()) return; BkInfo b = all[x.below(all.size())]; const BackupRec *m = run.modelBackup(b); if (!m) return;
    // databases of the cluster
    std::map<std::string, std::string> name = {{"1", "template1"}, {"5", "postgres"}, {"16384", "app"}}; std::set<std::string> sys = {"1", "5"};
    if (g->template0New) sys.insert("16388"); else { name["4"] = "template0"; sys.insert("4"); }
    for (auto &d : g->dbs) name[S(d.oid)] = d.name;
    std::vector<std::string> users; for (auto &kv : name) if (!sys.count(kv.first)) users.push_back(kv.first);
    std::set<std::string> inc, exc; std::string expectErr; Args sel;
    auto add = [&](const char *opt, const std::string &id) { sel.push_back(std::string("--db-") + opt + "=" + (x.chance(0.5) ? id : name[id])); };
    if (kind != "full") {
        bool useInc = x.chance(0.6), useExc = !useInc || x.chance(0.3);
        if (useInc) for (auto &u : users) if (x.chance(0.5)) inc.insert(u);
        if (useExc) for (auto &kv : name) if (!inc.count(kv.first) && x.chance(sys.count(kv.first) ? 0.15 : 0.5) && kv.first != "1") exc.insert(kv.first);
        if (inc.empty() && exc.empty()) exc.insert(users[x.below(users.size())]);
        for (auto &u : inc) add("include", u); for (auto &u : exc) add("exclude", u);
        if (kind == "bad") switch (x.below(5)) {
            case 0: sel.push_back("--db-include=nosuch"); expectErr = "unknown database to include"; break;
            case 1: sel.push_back("--db-exclude=" + std::string(x.chance(0.5) ? "nosuch" : "1638")); expectErr = "unknown database to exclude"; break;
            case 2: sel.push_back("--db-include=" + std::string(x.chance(0.5) ? "postgres" : "1")); expectErr = "system database included"; break;
            case 3: { std::string u = users[x.below(users.size())]; if (!inc.count(u)) add("include", u); if (!exc.count(u)) add("exclude", u); expectErr = "database both included and excluded"; break; }
            case 4: if (g->template0New) { sel.push_back(x.chance(0.5) ? "--db-include=template0" : "--db-include=16388"); expectErr = "recreated system database included"; } else { sel.push_back("--db-include=postgre"); expectErr = "unknown database to include"; } break;
        }
    }
    std::set<std::string> zero;
    if (inc.empty()) zero = exc; else for (auto &kv : name) if (!inc.count(kv.first) && (!sys.count(kv.first) || exc.count(kv.first))) zero.insert(kv.first);

    std::string tag = S(++run.restoreSeq), dir; bool again = (kind == "again" || kind == "full") && run.vars.count("dbdir");
    if (again) dir = run.vars["dbdir"]; else { dir = "/restore/d" + tag; if (x.chance(0.6)) fsMkdirs(h, dir, 1000, 1000, 0700); }
    Args a = {"--stanza=demo", "restore", "--pg1-path=" + dir, "--repo=" + S(b.repo), "--set=" + b.label}; if (again) a.push_back("--delta");
    if (!g->tblspc.empty()) a.push_back("--tablespace-map-all=" + dir + "-ts");
    for (auto &s : sel) a.push_back(s); if (x.chance(0.4)) a.push_back("--process-max=" + S(x.range(1, 4)));
    std::string was = kind == "bad" && fsExists(h, dir) ? fsHashTree(h, dir, true) : "", what = "restore --repo=" + S(b.repo) + " --set=" + b.label + (again ? " --delta" : ""); for (auto &s : sel) what += " " + s;
    fsSyncTree(h, "/restore");
    int f0 = run.faultsFired(); CmdRes r = run.cmd(h, a, "/", i); if (run.bad()) return;
    if (!expectErr.empty()) {
        if (r.ok()) { run.fail("bad-list", what + " succeeded (" + expectErr + ")"); return; }
        if ((fsExists(h, dir) ? fsHashTree(h, dir, true) : "") != was && run.faultsFired() == f0) run.fail("bad-list", what + " was refused (" + expectErr + ") but changed the target");
        run.probe("list-refused"); return;
    }
    if (!r.ok()) {
        if (run.faultsFired() == f0) { run.fail("failed", what + fmt(" failed rc=%d: ", r.rc) + r.why()); return; }
        run.heal(); run.probe("sel-retry");
        if (!fsExists(h, dir + "/PG_VERSION") && !fsExists(h, dir + "/backup.manifest")) fsWrite(h, dir + "/PG_VERSION", "", 1000, 1000);      // as the administrator is told
        if (!again) a.push_back("--delta");
        r = run.quiet(h, a); if (!r.ok()) { run.fail("retry", what + fmt(", interrupted and repeated with --delta, failed rc=%d: ", r.rc) + r.why()); return; }
    }
    W->faultsOn = false; struct FOn { ~FOn() { W->faultsOn = true; } } fon;
    // the same backup restored as a whole, without faults
    std::string ref = "/restore/ref" + tag; Args ra = {"--stanza=demo", "restore", "--pg1-path=" + ref, "--repo=" + S(b.repo), "--set=" + b.label}; if (!g->tblspc.empty()) ra.push_back("--tablespace-map-all=" + ref + "-ts");
    CmdRes rr = run.quiet(h, ra); if (!rr.ok()) { run.fail("reference", fmt("restore of %s without selection failed rc=%d: ", b.label.c_str(), rr.rc) + rr.why()); return; }
    std::map<std::string, Ent> got, want; tree(h, dir, "", got); tree(h, ref, "", want);
    for (auto &kv : want) if (!got.count(kv.first)) { run.fail("missing", what + ": " + kv.first + " is missing"); return; }
    for (auto &kv : got) {
        auto it = want.find(kv.first); if (it == want.end()) { run.fail("extra", what + ": unexpected " + kv.first); return; }
        const Ent &o = kv.second, &w = it->second; if (o.type != w.type || o.mode != w.mode) { run.fail("attr", what + ": type or mode of " + kv.first + " differs from an unselective restore"); return; }
        if (o.type != TFile || kv.first == "postgresql.auto.conf") continue;
        std::string db = dbOf(kv.first, g->tblId()); bool z = !db.empty() && zero.count(db) && !(kv.first.size() > 11 && kv.first.compare(kv.first.size() - 11, 11, "/PG_VERSION") == 0);
        if (z) {
            if (o.data.size() != w.data.size()) { run.fail("zero-size", what + fmt(": %s of an excluded database has %zu bytes instead of %zu", kv.first.c_str(), o.data.size(), w.data.size())); return; }
            if (o.data.find_first_not_of('\0') != std::string::npos) { run.fail("not-zero", what + ": " + kv.first + " of an excluded database was restored"); return; }
            run.probe("zeroed");
        } else { if (o.data != w.data) { run.fail("content", what + ": content of " + kv.first + (db.empty() ? "" : " (database " + db + ")") + " differs from an unselective restore"); return; } run.probe("same"); }
    }
    fsRemoveTree(h, ref); fsRemoveTree(h, ref + "-ts");
    run.ignoreRel = [&](const std::string &rel) { std::string db = dbOf(rel, g->tblId()); return !db.empty() && zero.count(db) > 0; };
    Run::Recov rv; std::string e = run.recover(dir, rv, true, 0, m); run.ignoreRel = nullptr;
    if (!e.empty()) { run.fail("recovery", what + ": " + e); return; }
    run.probe("sel-" + kind + (again ? "-delta" : "")); run.vars["dbdir"] = dir;
    if (x.chance(0.3)) {                                            // and the list to choose from
        CmdRes q = run.quiet(h, {"--stanza=demo", "info", "--repo=" + S(b.repo), "--set=" + b.label});
        for (auto &u : users) if (q.ok() && q.out.find(name[u] + " (" + u + ")") == std::string::npos) { run.fail("info", "info --set=" + b.label + " does not list database " + name[u] + " (" + u + ")"); return; }
        run.probe("db-listed");
    }
}

bool dbselOp(Run &run, int i, const Op &op)
{
    if (op.name == "dbsel") { dbsel(run, i, op); return true; }
    return false;
}

GEN(C27)
{
    (void)th; swarm(p, r, {.small = true}); auto X = [&] { return S((int64_t)r.below(1000000000)); };
    p.cfg["dbs"] = S(r.range(1, 15)); if (r.chance(0.6)) p.cfg["tblspc"] = S(r.range(1, 2)); p.cfg["rels"] = S(r.range(6, 14));
    history(p, r, (int)r.range(1, 3));
    if (r.chance(0.08)) { p.ops.push_back(O("upgrade", {{"same", S(r.chance(0.5))}})); p.ops.push_back(O("backup", {{"type", "full"}, {"repo", S(r.range(1, p.n("repos", 1)))}})); }
    int n = (int)r.range(1, 3), tgt = (int)r.below((uint64_t)n);
    for (int q = 0; q < n; q++) {
        std::string k = q == 0 ? pick(r, {"new", "new", "bad"}) : pick(r, {"new", "again", "again", "full", "bad"});
        Op o = O("dbsel", {{"kind", k}, {"xseed", X()}});
        if (q == tgt) addTarget(p, o); else p.ops.push_back(o);
    }
    p.variants = 6; p.faultMix = "@resched,@xseed,lag,lag,kill,errno,term"; if (r.chance(0.5)) p.faultMix = "@xseed,@resched,lag";
}
}
