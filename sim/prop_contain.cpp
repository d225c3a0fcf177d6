// C24: every command writes, changes and removes only what it is meant to
#include "props.h"
#include "prop_more.h"
#include <algorithm>
#include <cstring>
#include <regex>

namespace sim {

typedef std::vector<std::string> Args;
static bool under(const std::string &p, const std::string &d) { return p == d || (p.size() > d.size() && p.compare(0, d.size(), d) == 0 && p[d.size()] == '/'); }
static std::string base(const std::string &p) { size_t q = p.rfind('/'); return q == std::string::npos ? p : p.substr(q + 1); }
static std::string dirn(const std::string &p) { size_t q = p.rfind('/'); return q == std::string::npos || q == 0 ? "/" : p.substr(0, q); }

static std::string realPath(Host *h, const std::string &path, bool last, int depth = 0)   // links resolved textually
{
    std::vector<std::string> v; size_t i = 0; while (i < path.size()) { size_t e = path.find('/', i); if (e == std::string::npos) e = path.size(); if (e > i) v.push_back(path.substr(i, e - i)); i = e + 1; }
    std::string cur;
    for (size_t k = 0; k < v.size(); k++) {
        if (v[k] == ".") continue; if (v[k] == "..") { cur = dirn(cur); if (cur == "/") cur = ""; continue; }
        std::string n = cur + "/" + v[k]; Inode *x = fsLookup(h, n, false);
        if (x && x->type == TLink && depth < 20 && (last || k + 1 < v.size())) {
            std::string t = *x->data, rest; for (size_t q = k + 1; q < v.size(); q++) rest += "/" + v[q];
            return realPath(h, (t.size() && t[0] == '/' ? t : cur + "/" + t) + rest, last, depth + 1);
        }
        cur = n;
    }
    return cur.empty() ? "/" : cur;
}

struct Ctx { std::string cmd, stanza, cwd; int repo = 0; Args args; std::string pg1, tsMap; };
static std::map<int, Ctx> *roots;                                   // by pid of the process the user started
static Ctx parseCtx(const Args &a, const std::string &cwd)
{
    Ctx c; c.cwd = cwd; c.args = a;
    for (size_t k = 1; k < a.size(); k++) {
        auto val = [&](const char *o) -> const char * { size_t l = strlen(o); return a[k].compare(0, l, o) == 0 ? a[k].c_str() + l : nullptr; };
        if (a[k].compare(0, 2, "--") != 0) { if (c.cmd.empty()) c.cmd = a[k].substr(0, a[k].find(':')); continue; }
        if (auto v = val("--stanza=")) c.stanza = v; if (auto v = val("--repo=")) c.repo = atoi(v); if (auto v = val("--pg1-path=")) c.pg1 = v; if (auto v = val("--tablespace-map-all=")) c.tsMap = v;
    }
    return c;
}
static const Ctx *ctxOf(Proc *p)
{
    int id = p->pid; Args a = p->argv; bool child = false;
    for (auto &w : a) if (w.compare(0, 10, "--exec-id=") == 0) { id = atoi(w.c_str() + 10); child = true; }
    auto it = roots->find(id); if (it != roots->end()) return &it->second;
    if (child && W->procs.count(id)) a = W->procs[id]->argv;
    else if (!child) for (Proc *q = p->parent; q; q = q->parent) if (!q->argv.empty() && base(q->argv[0]) == "pgbackrest") { if (roots->count(q->pid)) return &(*roots)[q->pid]; }
    return &((*roots)[id] = parseCtx(a, p->cwd));
}

// "" when the command is meant to do this
static std::string judge(Run &run, const Ctx &c, Host *h, Sys sys, const std::string &p)
{
    const std::string &m = c.cmd, &S1 = c.stanza; bool rm = sys == S_UNLINK || sys == S_RMDIR;
    if (p == "/tmp/pgbackrest") return rm ? "removes the lock directory" : "";
    if (under(p, "/tmp/pgbackrest")) {
        std::string b = base(p); bool mine = false;
        if (b.size() > 5 && b.compare(b.size() - 5, 5, ".lock") == 0) {
            std::string s = b.substr(0, b.size() - 5); std::smatch q; static const std::regex re("^(.*)-(archive|backup|restore)(-[0-9]+)?$");
            if (std::regex_match(s, q, re)) mine = q[1] == S1 || (m == "stop" && S1.empty());
            if ((m == "stop" && !rm) || m == "start") mine = false;
        }
        else if (b == (S1.empty() ? "all" : S1) + ".stop") mine = m == "stop" ? !rm : m == "start" || m == "stanza-delete" ? rm : false;
        return mine ? "" : "touches a lock or stop file that is not its own";
    }
    if (m == "stop" || m == "start") return "writes outside the lock directory";
    for (int r = 1; r <= run.repos; r++) {
        if (run.repoHost(r) != h || !under(p, run.repoPath(r))) continue;
        if (m == "info" || m == "check" || m == "verify" || m == "restore" || m == "archive-get" || m == "repo-ls" || m == "repo-get" || m == "version" || m == "help") return "changes a repository";
        bool single = m == "backup" || m == "stanza-delete" || ((m == "expire" || m == "annotate") && c.repo);
        if (single && r != (c.repo ? c.repo : 1)) return fmt("changes repo%d which it was not told to work on", r);
        std::string rest = p.substr(run.repoPath(r).size()); if (rest.empty() || rest == "/archive" || rest == "/backup") return rm ? "removes the top of the repository" : "";
        bool ar = under(rest, "/archive/" + S1), bk = under(rest, "/backup/" + S1);
        if (S1.empty() || (!ar && !bk)) return "changes something in the repository that is not of its stanza";
        std::string b = base(p), d = rest.substr((ar ? 9 : 8) + S1.size()); bool info = d.find('/', 1) == std::string::npos && (b.compare(0, ar ? 12 : 11, ar ? "archive.info" : "backup.info") == 0);
        if (m == "backup") return bk || rm || info ? "" : "writes into the archive";
        if (m == "expire") return rm || info || (bk && b.compare(0, 6, "latest") == 0) ? "" : "writes something that is not an info file";
        if (m == "archive-push") return bk ? "changes backups" : rm && b.find(".pgbackrest.tmp") == std::string::npos ? "removes from the archive" : info ? "changes archive.info" : "";
        if (m == "stanza-create" || m == "stanza-upgrade") return d.empty() ? (rm ? "removes the stanza" : "") : info ? "" : "changes something that is not an info file";
        if (m == "stanza-delete") return rm ? "" : "writes to the repository";
        if (m == "annotate") return bk && (info || b.compare(0, 15, "backup.manifest") == 0) ? "" : "changes something that is not an info file or manifest";
        return "changes a repository";
    }
    if (under(p, "/spool")) {
        std::string st = "/spool/archive/" + S1; if (p == "/spool" || p == "/spool/archive") return rm ? "removes the top of the spool" : "";
        if (S1.empty() || !under(p, st)) return "changes something in the spool that is not of its stanza";
        if (m == "restore") return rm ? "" : "writes to the spool";
        if (p == st) return rm ? "removes the spool of the stanza" : m == "archive-push" || m == "archive-get" ? "" : "writes to the spool";
        if (m == "archive-push") return under(p, st + "/out") ? "" : "changes the spool of archive-get"; if (m == "archive-get") return under(p, st + "/in") ? "" : "changes the spool of archive-push";
        return "changes the spool";
    }
    if (m == "archive-get") {
        Args w; for (size_t k = 1; k < c.args.size(); k++) if (c.args[k].compare(0, 2, "--") != 0) w.push_back(c.args[k]);
        if (w.size() >= 3) { std::string d = realPath(h, w[2][0] == '/' ? w[2] : c.cwd + "/" + w[2], false); if (p == d || p == d + ".pgbackrest.tmp") return ""; }
        return "writes something other than the requested file";
    }
    if (m == "restore" && h == run.hp) {
        if (!c.pg1.empty() && under(p, c.pg1)) return p == c.pg1 && rm ? "removes the target directory itself" : "";
        if (!c.tsMap.empty() && under(p, c.tsMap)) {
            std::string rest = p.substr(c.tsMap.size()); if (rest.empty()) return rm ? "removes the tablespace directory" : "";
            size_t s2 = rest.find('/', 1); if (s2 == std::string::npos) return rm ? "removes the tablespace directory" : "";
            std::string v = rest.substr(s2 + 1); v = v.substr(0, v.find('/')); std::string want = fmt("PG_%u_", run.pg->major);
            for (auto g : run.models) if (v.compare(0, fmt("PG_%u_", g->major).size(), fmt("PG_%u_", g->major)) == 0) return "";
            return "changes something in the tablespace directory outside this version's directory";
        }
        return "changes something outside the target";
    }
    return "changes something outside its repository, lock and spool";
}

static std::string canaries(Run &run)
{
    std::string t; for (auto h : W->hosts) { t += h->name + "\n" + fsHashTree(h, "/precious", true); for (int r = 1; r <= run.repos; r++) if (run.repoHost(r) == h) for (const char *d : {"/README", "/archive/README", "/backup/README", "/archive/demo.old", "/backup/demo.old", "/backup/demobackup"}) t += fsHashTree(h, run.repoPath(r) + d, true); }
    return t;
}
static void precious(Host *h, uid_t u, Rng &x)
{
    for (const char *f : {"/precious/base/1/1259", "/precious/base/1/PG_VERSION", "/precious/dir/sub/file", "/precious/file", "/precious/PG_VERSION", "/precious/global/pg_control", "/precious/backup.manifest"}) { fsMkdirs(h, dirn(f), u, u, 0700); fsWrite(h, f, "precious " + S(x.range(0, 1 << 30)), u, u); }
    fsSyncTree(h, "/precious");
}
static std::string now(Run &run, const std::string &d) { return fsHashTree(run.hp, d, true); }

static void doRestore(Run &run, int i, Rng &x, const std::string &what)
{
    Pg *g = run.pg; Run::RestoreOpt o; o.fault = true; Host *h = run.hp;
    run.drainWal(); run.waitArchiver();
    g->archiverOn = false; struct Back { Pg *g; ~Back() { g->archiverOn = true; g->archiverKick(); } } back{g};
    std::vector<BkInfo> all; for (int r = 1; r <= run.repos; r++) { RepoInfo ri = run.info(r); for (auto &b : ri.backups) all.push_back(b); }
    if (all.empty()) return; auto &b = all[x.below(all.size())]; o.label = b.label; o.repo = b.repo;
    if (what == "running") { o.dir = g->data; o.noTs = true; o.delta = x.chance(0.7); }
    else if (what == "again") {
        if (!run.vars.count("lastdir")) return; o.dir = run.vars["lastdir"]; (x.chance(0.8) ? o.delta : o.force) = true;
        // the target was used and changed in the meantime; some of it now points elsewhere
        std::vector<std::pair<std::string, Inode *>> ent; fsWalk(h, o.dir, [&](const std::string &p, Inode *n) { if (p != o.dir && base(p) != "PG_VERSION" && base(p) != "backup.manifest") ent.push_back({p, n}); });
        int n = (int)x.range(1, 5);
        for (int k = 0; k < n && !ent.empty(); k++) {
            auto e = ent[x.below(ent.size())]; if (!fsLookup(h, e.first, false) || realPath(h, e.first, true) != e.first) continue; std::string to = e.second->type == TDir ? pick(x, {"/precious/base", "/precious/dir", "/precious", "/precious/base/1"}) : pick(x, {"/precious/file", "/precious/dir/sub/file", "/precious/base/1/1259", "/precious/none"});
            switch (x.below(5)) {
                case 0: fsRemoveTree(h, e.first); fsSymlink(h, to, e.first, 1000, 1000); break;
                case 1: if (e.second->type == TDir) { fsSymlink(h, pick(x, {"/precious", "/precious/dir"}), e.first + "/planted", 1000, 1000); } break;
                case 2: if (e.second->type == TDir) { fsSymlink(h, pick(x, {"/precious/file", "/precious/none", "../../../precious/file"}), e.first + "/plantedfile", 1000, 1000); } break;
                case 3: if (e.second->type == TFile) fsWrite(h, e.first, "changed", 1000, 1000); break;
                case 4: if (e.second->type == TDir) { fsMkdirs(h, e.first + "/extra/deep", 1000, 1000, 0700); fsSymlink(h, "/precious/base", e.first + "/extra/deep/l", 1000, 1000); fsWrite(h, e.first + "/extra/f", "x", 1000, 1000); } break;
            }
        }
        for (auto &t : fsList(h, o.dir + "-ts")) fsWrite(h, o.dir + "-ts/" + t + "/mine", "mine", 1000, 1000);
        fsMkdirs(h, o.dir + "x", 1000, 1000, 0700); fsWrite(h, o.dir + "x/neighbour", "n", 1000, 1000); fsMkdirs(h, o.dir + "-tsx/16390", 1000, 1000, 0700); fsWrite(h, o.dir + "-tsx/16390/n", "n", 1000, 1000);
    }
    else if (what == "dirty" || what == "notpg") {
        o.dir = "/restore/d" + S(++run.restoreSeq); fsMkdirs(h, o.dir + "/base/1", 1000, 1000, 0700); fsWrite(h, o.dir + (x.chance(0.5) ? "/base/1/mine" : "/mine"), "mine", 1000, 1000);
        if (what == "dirty" && x.chance(0.5)) fsWrite(h, o.dir + "/PG_VERSION", "16\n", 1000, 1000); if (what == "notpg") (x.chance(0.7) ? o.delta : o.force) = true;
    }
    bool refuse = what == "running" || what == "dirty" || what == "notpg";
    if (x.chance(0.2)) o.extra.push_back(x.chance(0.5) ? "--db-include=db1" : "--archive-mode=off"); if (!o.extra.empty() && o.extra[0].compare(0, 4, "--db") == 0) o.extra.clear();
    fsSyncTree(h, "/restore");
    std::string was = refuse && what != "running" ? now(run, o.dir) : "", nb = what == "again" ? now(run, o.dir + "x") + now(run, o.dir + "-tsx") : "";
    CmdRes r = run.restore(o); if (run.bad()) return;
    if (refuse) {
        if (r.ok()) run.fail("refuse", "restore into " + std::string(what == "running" ? "the directory of a running cluster" : what == "dirty" ? "a directory with files, without --delta" : "a directory that is no cluster") + " succeeded");
        if (what != "running" && now(run, o.dir) != was) run.fail("refuse", "refused restore changed the target directory");
        run.probe("refused-" + what);
    }
    else { if (r.ok()) { run.vars["lastdir"] = o.dir; run.probe("restored-" + what); } else if (!run.faultsFired()) run.fail("restore", fmt("restore (%s) failed rc=%d: ", what.c_str(), r.rc) + r.why()); }
    if (what == "again") {
        if (now(run, o.dir + "x") + now(run, o.dir + "-tsx") != nb) run.fail("outside", "restore changed a directory next to the target");
        for (auto &t : fsList(h, o.dir + "-ts")) if (!fsExists(h, o.dir + "-ts/" + t + "/mine") && fsExists(h, o.dir + "-ts/" + t) && r.ok()) run.fail("outside", "restore removed a file of the tablespace directory outside its version's directory");
    }
}

bool containOp(Run &run, int i, const Op &op)
{
    Pg *g = run.pg; Rng x((uint64_t)op.n("xseed") + 91);
    if (op.name == "canary") {
        roots = new std::map<int, Ctx>;
        for (auto h : W->hosts) precious(h, h == run.hp ? 1000 : 1001, x);
        for (int r = 1; r <= run.repos; r++) {
            Host *h = run.repoHost(r); uid_t u = run.repoUid(r); std::string p = run.repoPath(r);
            for (const char *f : {"/README", "/archive/README", "/backup/README", "/archive/demo.old/archive.info", "/archive/demo.old/16-1/0000000100000000/x", "/backup/demo.old/backup.info", "/backup/demo.old/20200101-000000F/backup.manifest", "/backup/demobackup/latest"}) { fsMkdirs(h, dirn(p + f), u, u, 0750); fsWrite(h, p + f, "keep " + S(x.range(0, 1 << 30)), u, u, 0640); }
            fsSyncTree(h, p);
        }
        run.vars["canaries"] = sha1hex(canaries(run)); run.kept["canaries"] = canaries(run);
        Run *rp = &run;
        W->onMut = [rp](Host *h, Sys sys, const std::string &path) {
            Proc *p = W->cur; if (!p || rp->bad() || p->argv.empty() || base(p->argv[0]) != "pgbackrest") return;
            const Ctx *c = ctxOf(p); bool follow = sys == S_CREAT || sys == S_WRITE || sys == S_FTRUNC || sys == S_CHMOD || sys == S_UTIME;
            for (int k = 0; k < 2; k++) {
                if (k && W->mutFrom.empty()) break;
                std::string q = k ? W->mutFrom : path; if (q.empty()) continue; q = realPath(h, q, k ? false : follow);
                std::string e = judge(*rp, *c, h, k ? S_UNLINK : sys, q);
                if (k && !e.empty() && c->cmd != "restore") { std::string e2 = judge(*rp, *c, h, S_RENAME, q); if (e2.empty()) e = ""; }     // moving a temporary file to its name
                if (!e.empty()) { rp->fail("outside", c->cmd + (c->stanza.empty() ? "" : " of stanza " + c->stanza) + " on " + h->name + " (" + p->role + ") " + e + fmt(": %s ", sysName[sys]) + q); return; }
            }
        };
        return true;
    }
    if (op.name == "cdo") {
        std::string w = op.s("what"); int repo = (int)x.range(1, run.repos); Host *rh = run.repoHost(repo); Args st = {"--stanza=demo"}; CmdRes r; bool judged = true;
        auto go = [&](Host *h, Args a) { a.insert(a.begin(), "--stanza=demo"); return run.cmd(h, a, "/", i); };
        if (w.compare(0, 8, "restore-") == 0) { doRestore(run, i, x, w.substr(8)); judged = false; }
        else if (w == "info") r = go(rh, {"info", pick(x, {"--output=json", "--output=text", "--log-level-console=info"})});
        else if (w == "verify") r = go(rh, {"verify", "--repo=" + S(repo)});
        else if (w == "check") { g->writePage(g->pickRel(), 0); r = go(x.chance(0.5) || !run.hr ? run.hp : run.hr, {"check"}); }
        else if (w == "get") {
            std::vector<std::string> v; for (auto &f : g->acked) v.push_back(f); if (v.empty()) return true;
            run.drainWal(); run.waitArchiver(); fsMkdirs(run.hp, "/restore/wal/pg_wal", 1000, 1000, 0700); fsMkdirs(run.hp, "/restore/wal/global", 1000, 1000, 0700); fsWrite(run.hp, "/restore/wal/global/pg_control", g->controlBytes(), 1000, 1000);
            std::string f = x.chance(0.8) ? v[x.below(v.size())] : "0000000100000000000000FE";
            r = run.cmd(run.hp, {"--stanza=demo", "--pg1-path=/restore/wal", "archive-get", f, x.chance(0.5) ? "pg_wal/RECOVERYXLOG" : "/restore/wal/pg_wal/RECOVERYXLOG"}, "/restore/wal", i); if (r.rc == 1) judged = false;
            run.waitGetAsync();
        }
        else if (w == "expire") { Args a = {"expire"}; if (x.chance(0.5)) a.push_back("--repo=" + S(repo)); if (x.chance(0.8)) for (int k = 1; k <= run.repos; k++) { a.push_back(fmt("--repo%d-retention-full=%d", k, (int)x.range(1, 2))); if (x.chance(0.4)) a.push_back(fmt("--repo%d-retention-diff=1", k)); if (x.chance(0.4)) a.push_back(fmt("--repo%d-retention-archive=1", k)); if (x.chance(0.3)) a.push_back(fmt("--repo%d-retention-history=0", k)); } if (x.chance(0.2)) a.push_back("--dry-run"); r = go(run.repoHost(1), a); for (int k = 1; k <= run.repos; k++) run.completed[k].clear(); }
        else if (w == "expireset") { RepoInfo ri = run.info(repo); if (ri.backups.empty()) return true; r = go(rh, {"expire", "--repo=" + S(repo), "--set=" + ri.backups[x.below(ri.backups.size())].label}); judged = false; run.completed[repo].clear(); }
        else if (w == "annotate") { RepoInfo ri = run.info(repo); if (ri.backups.empty()) return true; r = go(rh, {"annotate", "--repo=" + S(repo), "--set=" + ri.backups[x.below(ri.backups.size())].label, "--annotation=k" + S(x.range(1, 3)) + "=v" + S(x.range(1, 99))}); }
        else if (w == "create" || w == "upgrade") run.drainWal(), run.waitArchiver(), g->archiverOn = false, r = go(run.repoHost(1), {"stanza-" + w}), g->archiverOn = true, g->archiverKick();
        else if (w == "stop") { Args a = {"stop"}; if (x.chance(0.4)) a.push_back("--force"); r = x.chance(0.3) ? run.cmd(rh, {"stop"}, "/", i) : go(rh, a); Host *h2 = rh; run.quiet(h2, {"--stanza=demo", "start"}); run.quiet(h2, {"start"}); }
        else if (w == "delete") {
            run.drainWal(); run.waitArchiver(); g->archiverOn = false;
            if (x.chance(0.5)) { fsSymlink(rh, "/precious/dir", run.repoPath(repo) + "/backup/demo/planted", run.repoUid(repo), run.repoUid(repo)); fsSymlink(rh, "/precious/file", run.repoPath(repo) + "/archive/demo/plantedfile", run.repoUid(repo), run.repoUid(repo)); fsMkdirs(rh, run.repoPath(repo) + "/archive/demo/extra", run.repoUid(repo), run.repoUid(repo), 0750); fsSymlink(rh, "/precious", run.repoPath(repo) + "/archive/demo/extra/l", run.repoUid(repo), run.repoUid(repo)); }
            run.quiet(rh, {"--stanza=demo", "stop"}); for (int k = 1; k <= run.repos; k++) fsSyncTree(run.repoHost(k), run.repoPath(k)); std::map<int, std::string> other; for (int k = 1; k <= run.repos; k++) if (k != repo) other[k] = stanzaTree(run, k, "demo");
            int f0 = run.faultsFired(); r = go(rh, {"stanza-delete", "--repo=" + S(repo), "--force"}); for (auto &kv : other) if (stanzaTree(run, kv.first, "demo") != kv.second) run.fail("outside", fmt("stanza-delete of repo%d changed repo%d", repo, kv.first));
            if (!r.ok() && run.faultsFired() == f0) run.fail("delete", fmt("stanza-delete failed rc=%d: ", r.rc) + r.why());
            if (r.ok() && (fsExists(rh, run.repoPath(repo) + "/backup/demo") || fsExists(rh, run.repoPath(repo) + "/archive/demo"))) run.fail("delete", "stanza-delete left the stanza");
            run.completed[repo].clear(); run.vars["deleted"] = "1"; judged = false;
        }
        else abort();
        if (!run.bad() && judged && !r.ok() && !run.faultsFired()) run.fail("command", w + fmt(" failed rc=%d: ", r.rc) + r.why());
        if (w == "delete") run.vars["skip"] = "1";
        run.probe("did-" + w);
        if (!run.bad() && run.kept.count("canaries") && canaries(run) != run.kept["canaries"]) run.fail("canary", "after " + w + " an unrelated file or directory has changed");
        return true;
    }
    if (op.name == "cend") {
        if (run.kept.count("canaries") && canaries(run) != run.kept["canaries"]) run.fail("canary", "an unrelated file or directory has changed");
        return true;
    }
    return false;
}

GEN(C24)
{
    (void)th; swarm(p, r, {.small = true}); auto X = [&] { return S((int64_t)r.below(1000000000)); };
    p.ops.push_back(O("canary", {{"xseed", X()}}));
    int nb = (int)r.range(1, 3); if (r.chance(0.4)) for (int q = 0; q < 1; q++) { p.cfg["retention-full"] = S(r.range(1, 2)); if (r.chance(0.5)) p.cfg["retention-diff"] = "1"; if (r.chance(0.5)) p.cfg["retention-archive"] = "1"; }
    history(p, r, nb);
    if (r.chance(0.35)) p.ops.push_back(O("sibling", {{"name", pick(r, {"demo2", "demo-1", "dem", "xdemo", "demo.x", "demo-backup"})}}));
    if (r.chance(0.2)) { p.ops.push_back(O("upgrade", {{"same", S(r.chance(0.5))}})); p.ops.push_back(O("backup", {{"type", "full"}, {"repo", S(r.range(1, p.n("repos", 1)))}})); }
    int n = (int)r.range(2, 6), tgt = (int)r.below((uint64_t)n); bool fresh = false;
    for (int q = 0; q < n; q++) {
        std::string w = pick(r, {"restore-fresh", "restore-again", "restore-again", "restore-running", "restore-dirty", "restore-notpg", "info", "verify", "check", "get", "get", "expire", "expire", "expireset", "annotate", "create", "upgrade", "stop", "backup", "backup"});
        if (w == "restore-again" && !fresh) { p.ops.push_back(O("cdo", {{"what", "restore-fresh"}, {"xseed", X()}})); fresh = true; }
        if (w == "restore-fresh") fresh = true;
        if (q == n - 1 && r.chance(0.15)) w = "delete";
        Op o = w == "backup" ? O("backup", {{"type", rtype(r)}, {"repo", S(r.range(1, p.n("repos", 1)))}, {"xseed", X()}, {"may", "1"}}) : O("cdo", {{"what", w}, {"xseed", X()}});
        if (q == tgt) { addTarget(p, o); p.ops.push_back(O("heal")); } else p.ops.push_back(o);
        if (r.chance(0.3)) p.ops.push_back(O("activity", {{"ms", S(r.range(5, 100))}}));
    }
    p.ops.push_back(O("cend"));
    p.variants = 6; p.faultMix = "@resched,@xseed,kill,killtree,errno,errno,term,power,full,short,lag"; if (p.n("remote")) p.faultMix += ",break";
}
}
