// C26: links, tablespaces, modes and time stamps of a restored cluster
#include "props.h"
#include "prop_more.h"
#include <algorithm>

namespace sim {

typedef std::vector<std::string> Args;
static bool under(const std::string &p, const std::string &d) { return p == d || (p.size() > d.size() && p.compare(0, d.size(), d) == 0 && p[d.size()] == '/'); }

// entries below dir with links followed: relative path -> inode
static void walkAll(Host *h, const std::string &dir, const std::string &rel, std::map<std::string, Inode *> &out, int depth = 0)
{
    Inode *d = fsLookup(h, dir); if (!d || d->type != TDir || depth > 12) return;
    for (auto &e : fsList(h, dir)) {
        std::string p = dir + "/" + e, r = rel.empty() ? e : rel + "/" + e; Inode *i = fsLookup(h, p); if (!i) continue;
        out[r] = i; if (i->type == TDir) walkAll(h, p, r, out, depth + 1);
    }
}
static void links(Host *h, const std::string &dir, std::map<std::string, std::string> &out)
{
    fsWalk(h, dir, [&](const std::string &p, Inode *i) { if (i->type == TLink && p != dir) out[p.substr(dir.size() + 1)] = *i->data; });
}
static std::string resolveLink(const std::string &dir, const std::string &name, const std::string &to)
{
    if (to[0] == '/') return to;
    std::string p = dir + "/" + name; p = p.substr(0, p.rfind('/')); std::string t = to;
    while (t.compare(0, 3, "../") == 0) { t = t.substr(3); p = p.substr(0, p.rfind('/')); }
    return p + "/" + t;
}

static void place(Run &run, int i, const Op &op)
{
    Pg *g = run.pg; Host *h = run.hp; Rng x((uint64_t)op.n("xseed") + 111); std::string kind = op.s("kind");
    if (!g->running) return;
    g->stopActivity(); run.drainWal(); run.waitArchiver(); run.waitGetAsync(); g->archiverOn = false; run.settle(300000000ll); W->stuckWhy.clear();
    struct Back { Pg *g; ~Back() { if (g->running) { g->archiverOn = true; g->archiverKick(); } } } back{g};
    std::vector<BkInfo> all; int cur = (int)run.models.size();
    for (int r = 1; r <= run.repos; r++) { RepoInfo ri = run.info(r); if (!ri.ok) { run.fail("info", "info failed: " + ri.raw.substr(0, 300)); return; } for (auto &b : ri.backups) if (b.dbId == cur) all.push_back(b); }
    if (all.empty()) return; BkInfo b = all[x.below(all.size())]; const BackupRec *m = run.modelBackup(b); if (!m) return;

    std::string dir, tag = S(++run.restoreSeq); bool inplace = kind == "inplace", again = kind == "again" && run.vars.count("pldir");
    if (inplace) dir = g->data; else if (again) dir = run.vars["pldir"]; else { dir = "/restore/p" + tag; if (x.chance(0.7)) fsMkdirs(h, dir, 1000, 1000, 0700); }
    bool delta = again || (inplace && x.chance(0.6));
    // attributes of the source
    struct Attr { unsigned mode; int64_t mtime; ItemType type; }; std::map<std::string, Attr> attr; { std::map<std::string, Inode *> s; walkAll(h, g->data, "", s); for (auto &kv : s) attr[kv.first] = {kv.second->mode, kv.second->mtime, kv.second->type}; }
    bool crashed = h->crashes > 0;

    Args a = {"--stanza=demo", "restore", "--pg1-path=" + dir, "--repo=" + S(b.repo), "--set=" + b.label}; if (delta) a.push_back(x.chance(0.85) ? "--delta" : "--force");
    std::map<std::string, std::string> want; std::string expectErr;    // link -> text
    bool all_ = inplace && x.chance(0.7); std::set<std::string> mapped;
    auto map = [&](const std::string &name, const std::string &to) { a.push_back("--link-map=" + name + "=" + to); want[name] = to; mapped.insert(name); };
    for (auto &l : g->links) {
        if (x.chance(inplace ? 0.25 : 0.5)) { bool file = l.first.find(".conf") != std::string::npos; std::string to = "/restore/m" + tag + "/" + (file ? "etc/" + pick(x, {"postgresql.conf", "other.conf"}) + S((int64_t)mapped.size()) : "d" + S((int64_t)mapped.size())); if (x.chance(0.25) && l.first.find('/') == std::string::npos) to = (dir == g->data ? "../m" : "../m") + tag + "/r" + S((int64_t)mapped.size()); map(l.first, to); }
        else if (all_) want[l.first] = l.second;
    }
    if (all_) a.push_back("--link-all");
    for (const char *nm : {"pg_multixact", "pg_ident.conf", "pg_hba.conf", "pg_wal", "pg_stat", "base/5"}) {   // also what was no link
        bool isLink = false; for (auto &l : g->links) if (l.first == nm) isLink = true; if (isLink || !x.chance(0.15)) continue;
        map(nm, "/restore/m" + tag + "/n" + S((int64_t)mapped.size()) + (std::string(nm).find(".conf") != std::string::npos ? "/x.conf" : ""));
    }
    int how = (int)x.below(inplace ? 3 : 2);                         // 0 map all, 1 one by one, 2 original
    for (auto &t : g->tblspc) {
        std::string nm = "ts" + std::to_string(t.first), to = t.second;
        if (how == 0) to = "/restore/t" + tag + "/" + nm;
        else if (how == 1) { to = "/restore/t" + tag + "-" + S(t.first); a.push_back("--tablespace-map=" + (x.chance(0.5) ? nm : S(t.first)) + "=" + to); }
        want["pg_tblspc/" + std::to_string(t.first)] = to;
    }
    if (how == 0 && !g->tblspc.empty()) a.push_back("--tablespace-map-all=/restore/t" + tag);
    else if (how == 1 && x.chance(0.3) && !g->tblspc.empty()) a.push_back("--tablespace-map-all=/restore/never");
    if (kind == "bad") {                                            // must be refused before anything is changed
        std::string fl = "PG_VERSION"; for (auto &l : g->links) if (l.first.find(".conf") != std::string::npos && !mapped.count(l.first)) fl = l.first;   // an own file link where there is one
        switch (x.below(delta ? 7 : 10)) {
            case 7: fsWrite(h, "/restore/b" + tag + "/exists", "not to be touched", 1000, 1000); a.push_back("--link-map=" + fl + "=/restore/b" + tag + "/exists"); expectErr = "destination of a file link exists"; break;
            case 8: fsWrite(h, "/restore/b" + tag + "/exists", "not to be touched", 1000, 1000); a.push_back("--link-map=pg_subtrans=/restore/b" + tag); expectErr = "destination of a link is not empty"; break;
            case 9: if (!g->tblspc.empty() && how == 0) { fsWrite(h, "/restore/t" + tag + "/ts" + S(g->tblspc[0].first) + "/" + g->tblId() + "/exists", "not to be touched", 1000, 1000); expectErr = "tablespace directory is not empty"; } else { a.push_back("--link-map=nosuch/x=/restore/bad" + tag); expectErr = "unknown link"; } break;
            case 0: a.push_back("--link-map=nosuch=/restore/bad" + tag); expectErr = "unknown link"; break;
            case 1: a.push_back("--tablespace-map=99999=/restore/bad" + tag); expectErr = "unknown tablespace"; break;
            case 2: a.push_back("--link-map=pg_subtrans=" + dir + "/inside"); expectErr = "link into the data directory"; break;
            case 3: a.push_back("--link-map=pg_subtrans=/restore/b" + tag); a.push_back("--link-map=pg_serial=/restore/b" + tag); expectErr = "two links to one directory"; break;
            case 4: a.push_back("--link-map=pg_subtrans=/restore/b" + tag); a.push_back("--link-map=pg_serial=/restore/b" + tag + "/sub"); expectErr = "link below another link"; break;
            case 5: if (g->tblspc.empty() || how == 1) { a.push_back("--link-map=" + fl + "=/restore/b" + tag + "/same"); a.push_back("--link-map=pg_xact/0000=/restore/b" + tag + "/same"); expectErr = "two file links to one file"; } else { auto &t = g->tblspc[0]; a.push_back("--link-map=pg_tblspc/" + S(t.first) + "=/restore/b" + tag); expectErr = "tablespace mapped as a link"; } break;
            case 6: a.push_back("--link-map=PG_VERSION=/restore/b" + tag + "/one"); a.push_back("--link-map=global/pg_filenode.map=/restore/b" + tag + "/same"); a.push_back("--link-map=base/1/PG_VERSION=/restore/b" + tag + "/same"); expectErr = "two of three file links to one file"; break;
        }
    }
    // what must stay: the former places of a directory restored again
    std::map<std::string, std::string> old; std::vector<std::string> oldPlaces;
    if (again || (inplace && delta)) { std::map<std::string, std::string> ol; links(h, dir, ol); for (auto &kv : ol) oldPlaces.push_back(resolveLink(dir, kv.first, kv.second)); }
    std::set<std::string> newPlaces; for (auto &kv : want) newPlaces.insert(resolveLink(dir, kv.first, kv.second));
    if (inplace) {
        g->running = false; for (auto &kv : W->procs) (void)kv; fsUnlink(h, dir + "/postmaster.pid");
        if (!delta) { for (auto &l : g->links) fsRemoveTree(h, g->linkReal(l)); for (auto &t : g->tblspc) for (auto &e : fsList(h, t.second)) fsRemoveTree(h, t.second + "/" + e); for (auto &e : fsList(h, dir)) fsRemoveTree(h, dir + "/" + e); }
        else if (x.chance(0.5)) { for (auto &l : g->links) if (x.chance(0.4)) { if (x.chance(0.5)) fsRemoveTree(h, g->linkReal(l)); else { fsUnlink(h, dir + "/" + l.first); fsSymlink(h, "/elsewhere", dir + "/" + l.first, 1000, 1000); } } fsUnlink(h, dir + "/" + pick(x, {"postgresql.conf", "pg_xact/0000", "base/1/PG_VERSION"})); }
    }
    if (delta && x.chance(0.4)) for (const char *f : {"pg_hba.conf", "base/1/PG_VERSION", "extra_1"}) { Inode *n = fsLookup(h, dir + "/" + f, false); /* what a file link points to keeps its mode */ if (n && n->type == TFile && x.chance(0.5)) { n->mode = 0666; n->mtime += 3; } }
    if (delta && x.chance(0.4)) {                                   // modes of directories, linked or not
        std::vector<std::string> v = {"userdir", "userdir/sub0", "base/1", "pg_xact", "pg_wal", "base/16384"}; for (auto &t : g->tblspc) { v.push_back("pg_tblspc/" + S(t.first) + "/" + g->tblId()); }
        for (auto &f : v) { Inode *n = fsLookup(h, dir + "/" + f); if (n && n->type == TDir && x.chance(0.5)) n->mode = n->dmode = 0770; }
    }
    fsSyncTree(h, "/restore"); if (inplace) { fsSyncTree(h, "/pg"); for (auto &t : g->tblspc) fsSyncTree(h, t.second); }
    for (auto &p : oldPlaces) { bool used = under(p, dir); for (auto &q : newPlaces) if (under(p, q) || under(q, p)) used = true; if (!used) old[p] = fsHashTree(h, p, true); }
    auto badHash = [&]() { std::string v; for (auto &q : {dir, "/restore/b" + tag, "/restore/t" + tag, "/restore/t" + tag + "-" + S(16390), "/restore/m" + tag, "/restore/bad" + tag}) v += (fsExists(h, q) ? fsHashTree(h, q, true) : std::string("-")) + " "; return v; };
    std::string was = kind == "bad" ? badHash() : "";
    int f0 = run.faultsFired(); CmdRes r = run.cmd(h, a, "/", i); if (run.bad()) return;
    std::string what = "restore"; for (size_t k = 2; k < a.size(); k++) what += " " + a[k];
    if (!expectErr.empty()) {
        if (r.ok()) { run.fail("bad-map", what + " succeeded (" + expectErr + ")"); return; }
        if (badHash() != was && run.faultsFired() == f0) run.fail("bad-map", what + " was refused (" + expectErr + ") but changed the target");
        run.probe("place-refused"); return;
    }
    if (!r.ok()) {
        if (run.faultsFired() == f0) { run.fail("failed", what + fmt(" failed rc=%d: ", r.rc) + r.why()); return; }
        run.heal(); if (inplace) g->running = false; run.probe("place-retry");
        if (!fsExists(h, dir + "/PG_VERSION") && !fsExists(h, dir + "/backup.manifest")) fsWrite(h, dir + "/PG_VERSION", "", 1000, 1000);      // as the administrator is told
        if (!delta) a.push_back("--delta");
        r = run.quiet(h, a); if (!r.ok()) { run.fail("retry", what + fmt(", interrupted and repeated with --delta, failed rc=%d: ", r.rc) + r.why()); return; }
    }
    W->faultsOn = false; struct FOn { ~FOn() { W->faultsOn = true; } } fon;
    // links
    std::map<std::string, std::string> have; links(h, dir, have);
    for (auto &kv : want) { if (!have.count(kv.first)) { run.fail("link", what + ": " + kv.first + " is not a link to " + kv.second); return; } if (have[kv.first] != kv.second) { run.fail("link", what + ": link " + kv.first + " points to " + have[kv.first] + " instead of " + kv.second); return; } }
    for (auto &kv : have) if (!want.count(kv.first)) { run.fail("link", what + ": unexpected link " + kv.first + " to " + kv.second); return; }
    for (auto &kv : old) if (fsHashTree(h, kv.first, true) != kv.second) { run.fail("old", what + ": changed " + kv.first + ", the former place of a link"); return; }
    for (const char *d : {"/restore/never"}) if (fsExists(h, d)) { run.fail("place", what + ": created " + d); return; }
    // attributes
    std::map<std::string, Inode *> now; walkAll(h, dir, "", now);
    for (auto &kv : attr) {
        auto it = now.find(kv.first); if (it == now.end()) continue;
        if (kv.first.compare(0, 9, "pg_tblspc") == 0 && kv.first.find("/PG_") == std::string::npos) continue;
        if (it->second->type != kv.second.type) { run.fail("type", what + ": " + kv.first + " is of another type"); return; }
        if (kv.first.compare(0, 7, "pg_wal/") == 0 && kv.second.type == TFile) continue;
        if ((it->second->mode & 07777) != (kv.second.mode & 07777)) { run.fail("mode", what + fmt(": mode of %s is %04o instead of %04o", kv.first.c_str(), it->second->mode & 07777, kv.second.mode & 07777)); return; }
        auto e = g->extra.find(kv.first); if (crashed || e == g->extra.end() || e->second.empty() || e->second.back().from > m->t0 - 2000000 || kv.first == "postgresql.auto.conf" || kv.second.type != TFile) continue;
        if (it->second->mtime != kv.second.mtime) { run.fail("mtime", what + fmt(": time stamp of %s is %lld instead of %lld", kv.first.c_str(), (long long)it->second->mtime, (long long)kv.second.mtime)); return; }
        run.probe("mtime-ok");
    }
    for (auto &kv : now) if (kv.second->uid != 1000 || kv.second->gid != 1000) { run.fail("owner", what + ": owner of " + kv.first); return; }
    for (auto &kv : attr) if (kv.second.type == TDir && !now.count(kv.first)) { bool tsRel = kv.first.compare(0, 9, "pg_tblspc") == 0; if (!tsRel && m->t0 > 0 && kv.first.compare(0, 7, "pg_stat") != 0 && kv.first.compare(0, 7, "userdir") == 0 && !g->extra.count(kv.first)) { run.fail("dir", what + ": directory " + kv.first + " is missing"); return; } }
    Run::Recov rv; std::string e = run.recover(dir, rv, true, 0, m); if (e.empty()) e = run.checkExtras(dir, m->t0, m->t1);
    if (!e.empty()) { run.fail("content", what + ": " + e); return; }
    run.probe("placed-" + (kind == "again" && !again ? std::string("map") : kind)); if (!want.empty()) run.probe("links", (int64_t)want.size());
    if (!inplace) run.vars["pldir"] = dir;
}

// a cluster with a link that cannot be restored must not be backed up
static void badLink(Run &run, const Op &op)
{
    Pg *g = run.pg; Host *h = run.hp; Rng x((uint64_t)op.n("xseed") + 77); if (!g->running) return;
    std::string d = g->data, what; std::vector<std::string> made, dirs; std::string dir = x.chance(0.5) ? "" : "userdir/"; if (!fsExists(h, d + "/userdir")) dir = "";
    auto ln = [&](const std::string &name, const std::string &to) { fsSymlink(h, to, d + "/" + dir + name, 1000, 1000); made.push_back(d + "/" + dir + name); what += " " + dir + name + " -> " + to; };
    auto mk = [&](const std::string &p) { fsMkdirs(h, p, 1000, 1000, 0700); dirs.push_back(p); };
    auto mf = [&](const std::string &p) { fsWrite(h, p, "file " + p, 1000, 1000); };
    mk("/bad/a"); mk("/bad/b/c"); mf("/bad/a/f"); mf("/bad/a/g"); mf("/bad/b/f"); if (x.chance(0.5)) ln("zlink0", "/bad/a/f");
    bool f0 = !made.empty(); std::string par = d.substr(0, d.rfind('/'));
    switch (x.below(8)) {
        case 7: fsSymlink(h, x.chance(0.5) ? "/bad/b" : "/bad/b/f", par + "/zl", 1000, 1000); ln("zlink1", (dir.empty() ? ".." : "../..") + std::string("/zl")); break;
        case 0: ln("zlink1", d + (x.chance(0.5) ? "/base" : "/base/1")); break;
        case 1: ln("zlink1", dir.empty() ? "base" : "../base"); break;
        case 2: ln("zlink1", "/bad/none"); break;
        case 3: fsSymlink(h, x.chance(0.5) ? "/bad/b" : "/bad/b/f", "/bad/l", 1000, 1000); ln("zlink1", "/bad/l"); break;
        case 4: ln("zlink1", "/bad/b/c"); ln("zlink2", "/bad/b/c"); break;
        case 5: if (x.chance(0.5)) { ln("zlink1", "/bad/b"); ln("zlink2", "/bad/b/c"); } else { ln("zlink1", "/bad/b/c"); ln("zlink2", "/bad/b"); } break;
        case 6: if (x.chance(0.5) || !f0) { ln("zlink1", "/bad/a/g"); ln("zlink2", "/bad/a/g"); } else ln("zlink1", "/bad/a/f"); break;
    }
    fsSyncTree(h, d); if (dir.size()) fsSyncTree(h, d + "/userdir");
    int repo = (int)op.n("repo", 1); std::vector<std::string> was, now; auto list = [&](std::vector<std::string> &v) { for (auto &e : fsList(run.repoHost(repo), run.repoPath(repo) + "/backup/demo")) if (fsExists(run.repoHost(repo), run.repoPath(repo) + "/backup/demo/" + e + "/backup.manifest")) v.push_back(e); }; list(was);
    CmdRes r = run.backup(op.s("type"), repo, extraArgs(op)); if (run.bad()) return;
    list(now);
    if (r.ok()) run.fail("bad-link", "backup succeeded with" + what); else if (now != was) run.fail("bad-link", "backup refused" + what + " but left a backup");
    if (r.ok()) run.vars["skip"] = "1";
    run.probe("bad-link-refused"); if (!r.done || run.faultsFired()) run.heal();
    for (auto &m : made) fsUnlink(h, m); fsRemoveTree(h, "/bad"); if (fsExists(h, par + "/zl")) fsUnlink(h, par + "/zl"); fsSyncTree(h, d); if (dir.size()) fsSyncTree(h, d + "/userdir");
}

bool placeOp(Run &run, int i, const Op &op)
{
    if (op.name == "badlink") { badLink(run, op); return true; }
    if (op.name == "attrs") {                                       // modes the administrator has chosen
        Rng x((uint64_t)op.n("xseed") + 5); Pg *g = run.pg;
        for (auto &kv : g->extra) if ((kv.first.find("extra_") == 0 || kv.first.find("userdir") == 0 || kv.first.find("conf") != std::string::npos) && x.chance(0.5)) if (Inode *n = fsLookup(run.hp, g->data + "/" + kv.first)) n->mode = (unsigned)x.pick(std::vector<int>{0600, 0640, 0644, 0660});
        for (const char *d : {"userdir", "userdir/sub0", "userdir/sub3"}) if (Inode *n = fsLookup(run.hp, g->data + "/" + d)) if (x.chance(0.6)) n->mode = (unsigned)x.pick(std::vector<int>{0700, 0750, 0755});
        fsSyncTree(run.hp, g->data); for (auto &l : g->links) { std::string r = g->linkReal(l); fsSyncTree(run.hp, r.substr(0, r.rfind('/'))); if (Inode *n = fsLookup(run.hp, r)) n->dmode = n->mode; }
        return true;
    }
    if (op.name == "place") { place(run, i, op); return true; }
    return false;
}

GEN(C26)
{
    (void)th; swarm(p, r, {.small = true}); auto X = [&] { return S((int64_t)r.below(1000000000)); };
    if (r.chance(0.85)) p.cfg["links"] = S(r.range(1, 63)); if (r.chance(0.5)) p.cfg["tblspc"] = S(r.range(1, 2));
    p.ops.push_back(O("attrs", {{"xseed", X()}}));
    history(p, r, (int)r.range(1, 3));
    if (r.chance(0.1)) { p.ops.push_back(O("upgrade", {{"same", S(r.chance(0.5))}})); p.ops.push_back(O("backup", {{"type", "full"}, {"repo", S(r.range(1, p.n("repos", 1)))}})); }
    if (r.chance(0.3)) p.ops.push_back(O("badlink", {{"type", rtype(r)}, {"repo", S(r.range(1, p.n("repos", 1)))}, {"xseed", X()}}));
    int n = (int)r.range(1, 3), tgt = (int)r.below((uint64_t)n);
    for (int q = 0; q < n; q++) {
        std::string k = pick(r, {"map", "map", "again", "bad"}); if (q == n - 1 && r.chance(0.5)) k = "inplace"; if (k == "again" && q == 0) k = "map";
        Op o = O("place", {{"kind", k}, {"xseed", X()}});
        if (q == tgt) addTarget(p, o); else p.ops.push_back(o);
    }
    p.variants = 6; p.faultMix = "@resched,@xseed,lag,lag,kill,errno,term"; if (r.chance(0.5)) p.faultMix = "@xseed,@resched,lag";
}
}
