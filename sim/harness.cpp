// Core of the harness: plan text, world construction, commands, recovery oracle
#include "harness.h"
#include <algorithm>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <openssl/evp.h>
#include <openssl/sha.h>
#include <sys/wait.h>

namespace sim {

std::string fmt(const char *f, ...) { char b[4096]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }

std::string sha1hex(const std::string &s)
{
    unsigned char d[20]; SHA1((const unsigned char *)s.data(), s.size(), d); std::string r; char b[4];
    for (int i = 0; i < 20; i++) { snprintf(b, sizeof b, "%02x", d[i]); r += b; } return r;
}

std::vector<std::string> shSplit(const std::string &s)
{
    std::vector<std::string> v; std::string cur; bool has = false;
    for (size_t i = 0; i < s.size(); i++) {
        char c = s[i];
        if (c == '\\' && i + 1 < s.size()) { cur += s[++i]; has = true; }
        else if (c == '\'') { has = true; for (i++; i < s.size() && s[i] != '\''; i++) cur += s[i]; }
        else if (c == '"') { has = true; for (i++; i < s.size() && s[i] != '"'; i++) { if (s[i] == '\\' && i + 1 < s.size()) i++; cur += s[i]; } }
        else if (c == ' ') { if (has) v.push_back(cur); cur.clear(); has = false; }
        else { cur += c; has = true; }
    }
    if (has) v.push_back(cur);
    return v;
}

//=================================================================================================================================
// Plan text
//=================================================================================================================================
static std::string enc(const std::string &s) { std::string r; for (char c : s) { if (c == ' ') r += "%20"; else if (c == '\n') r += "%0a"; else if (c == '%') r += "%25"; else r += c; } return r; }
static std::string dec(const std::string &s) { std::string r; for (size_t i = 0; i < s.size(); i++) if (s[i] == '%' && i + 2 < s.size()) { r += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; } else r += s[i]; return r; }

std::string Plan::text() const
{
    std::string t = "pgbackrest-sim-replay 1\nprop " + prop + "\nseed " + std::to_string(seed) + "\n";
    for (auto &kv : cfg) t += "cfg " + kv.first + "=" + enc(kv.second) + "\n";
    for (auto &o : ops) { t += "op " + o.name; for (auto &kv : o.a) t += " " + kv.first + "=" + enc(kv.second); t += "\n"; }
    for (auto &f : faults)
        t += fmt("fault kind=%s op=%d sys=%d cls=%d role=%s host=%s path=%s nth=%lld err=%d arg=%lld seed=%llu repeat=%d\n", faultName[f.kind], f.op, f.sys, f.cls, enc(f.role).c_str(), enc(f.host).c_str(),
            enc(f.path).c_str(), (long long)f.nth, f.err, (long long)f.arg, (unsigned long long)f.seed, f.repeat);
    return t;
}
static SMap kvs(const std::string &s)
{
    SMap m; size_t i = 0;
    while (i < s.size()) { size_t e = s.find(' ', i); if (e == std::string::npos) e = s.size(); std::string w = s.substr(i, e - i); i = e + 1; size_t q = w.find('='); if (q != std::string::npos) m[w.substr(0, q)] = dec(w.substr(q + 1)); }
    return m;
}
bool Plan::parse(const std::string &t, Plan &p, std::string *expect)
{
    size_t i = 0; bool hdr = false;
    while (i < t.size()) {
        size_t e = t.find('\n', i); if (e == std::string::npos) e = t.size();
        std::string l = t.substr(i, e - i); i = e + 1;
        if (l.empty() || l[0] == '#') continue;
        size_t sp = l.find(' '); std::string k = l.substr(0, sp), v = sp == std::string::npos ? "" : l.substr(sp + 1);
        if (k == "pgbackrest-sim-replay") hdr = true;
        else if (k == "prop") p.prop = v;
        else if (k == "seed") p.seed = strtoull(v.c_str(), nullptr, 10);
        else if (k == "cfg") { SMap m = kvs(v); for (auto &x : m) p.cfg[x.first] = x.second; }
        else if (k == "op") { Op o; size_t q = v.find(' '); o.name = v.substr(0, q); if (q != std::string::npos) o.a = kvs(v.substr(q + 1)); p.ops.push_back(o); }
        else if (k == "fault") {
            SMap m = kvs(v); Fault f; for (int x = 0; x < FK_COUNT; x++) if (m["kind"] == faultName[x]) f.kind = (FaultKind)x;
            f.op = atoi(m["op"].c_str()); f.sys = m.count("sys") ? atoi(m["sys"].c_str()) : -1; f.cls = atoi(m["cls"].c_str()); f.role = m["role"]; f.host = m["host"]; f.path = m["path"]; f.nth = atoll(m["nth"].c_str());
            f.err = atoi(m["err"].c_str()); f.arg = atoll(m["arg"].c_str()); f.seed = strtoull(m["seed"].c_str(), nullptr, 10); f.repeat = atoi(m["repeat"].c_str()); if (f.repeat < 1) f.repeat = 1;
            p.faults.push_back(f);
        } else if (k == "expect" && expect) *expect = v;
    }
    return hdr;
}

//=================================================================================================================================
// JSON (enough for "info --output=json")
//=================================================================================================================================
static bool jval(const char *&p, const char *e, Json &j)
{
    auto ws = [&] { while (p < e && (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r')) p++; };
    ws(); if (p >= e) return false;
    auto str = [&](std::string &o) { if (*p != '"') return false; p++; while (p < e && *p != '"') { if (*p == '\\' && p + 1 < e) { p++; if (*p == 'n') o += '\n'; else if (*p == 'u') { p += 4; o += '?'; } else o += *p; } else o += *p; p++; } if (p >= e) return false; p++; return true; };
    if (*p == '{') {
        j.t = Json::OBJ; p++; ws(); if (p < e && *p == '}') { p++; return true; }
        for (;;) { ws(); std::string k; if (p >= e || !str(k)) return false; ws(); if (p >= e || *p != ':') return false; p++; Json v; if (!jval(p, e, v)) return false; j.obj.push_back({k, v}); ws(); if (p < e && *p == ',') { p++; continue; } if (p < e && *p == '}') { p++; return true; } return false; }
    }
    if (*p == '[') {
        j.t = Json::ARR; p++; ws(); if (p < e && *p == ']') { p++; return true; }
        for (;;) { Json v; if (!jval(p, e, v)) return false; j.arr.push_back(v); ws(); if (p < e && *p == ',') { p++; continue; } if (p < e && *p == ']') { p++; return true; } return false; }
    }
    if (*p == '"') { j.t = Json::STR; return str(j.str); }
    if (!strncmp(p, "true", 4)) { j.t = Json::BOOL; j.b = true; p += 4; return true; }
    if (!strncmp(p, "false", 5)) { j.t = Json::BOOL; p += 5; return true; }
    if (!strncmp(p, "null", 4)) { p += 4; return true; }
    char *x; j.t = Json::NUM; j.num = strtod(p, &x); if (x == p) return false; p = x; return true;
}
bool Json::parse(const std::string &s, Json &j) { const char *p = s.data(); return jval(p, s.data() + s.size(), j); }

//=================================================================================================================================
// World
//=================================================================================================================================
std::string CmdRes::why() const                                      // the lines that explain a failure
{
    std::string t = all(), o; size_t i = 0; std::vector<std::string> v;
    while (i < t.size()) { size_t e = t.find('\n', i); if (e == std::string::npos) e = t.size(); v.push_back(t.substr(i, e - i)); i = e + 1; }
    for (size_t k = 0; k < v.size(); k++) if (v[k].find("ERROR") != std::string::npos || v[k].find("WARN") != std::string::npos || k + 4 >= v.size() || (k && v[k - 1].find("ERROR") != std::string::npos)) o += v[k] + "\n";
    if (o.size() > 1800) o = o.substr(o.size() - 1800);
    return o;
}
void Run::fail(const std::string &cls, const std::string &msg) { violate(plan.prop + "/" + cls, msg); }

void Run::writeConfig()
{
    auto common = [&](bool onRepo) {
        std::string c = "[global]\n";
        for (int r = 1; r <= repos; r++) {
            std::string p = "repo" + std::to_string(r) + "-";
            if (onRepo && !remote[r]) continue;
            if (remote[r] && !onRepo) { c += p + "host=repo\n" + p + "host-user=pgbackrest\n"; }
            c += p + "path=" + repoPath(r) + "\n";
            if (n("cipher") & (1 << (r - 1))) c += p + "cipher-type=aes-256-cbc\n" + p + "cipher-pass=SECRETPASS" + std::to_string(r) + "\n";
            if (n("bundle")) c += p + "bundle=y\n" + p + "bundle-size=" + s("bundle-size", "100KiB") + "\n" + p + "bundle-limit=" + s("bundle-limit", "20KiB") + "\n";
            if (n("block")) { c += p + "block=y\n"; }
            if (n("hardlink")) c += p + "hardlink=y\n";
            for (auto k : {"retention-full", "retention-diff", "retention-archive", "retention-full-type", "retention-archive-type", "retention-history"})
                { std::string v = s(std::string(k) + std::to_string(r), s(k)); if (!v.empty()) c += p + k + "=" + v + "\n"; }
        }
        c += "log-level-console=" + s("log", "info") + "\nlog-level-file=off\nlog-level-stderr=off\nlog-timestamp=n\n";
        c += "lock-path=/tmp/pgbackrest\nspool-path=/spool\n";
        c += "process-max=" + s("process-max", "2") + "\nbuffer-size=" + s("buffer-size", "64KiB") + "\n";
        c += "compress-type=" + s("compress", "lz4") + "\n";
        if (!s("compress-level").empty()) c += "compress-level=" + s("compress-level") + "\n";
        c += "archive-timeout=" + s("archive-timeout", "20") + "\n";
        c += "db-timeout=" + s("db-timeout", "60") + "\nprotocol-timeout=" + s("protocol-timeout", "90") + "\nio-timeout=" + s("io-timeout", "20") + "\n";
        c += "start-fast=y\n";
        if (n("async")) c += "archive-async=y\n";
        if (!s("archive-get-queue-max").empty()) c += "archive-get-queue-max=" + s("archive-get-queue-max") + "\n";
        if (!s("archive-push-queue-max").empty() && !onRepo) c += "archive-push-queue-max=" + s("archive-push-queue-max") + "\n";
        if (n("archive-copy")) c += "archive-copy=y\n";
        if (!s("archive-check").empty()) c += "archive-check=" + s("archive-check") + "\n";
        if (!s("resume").empty()) c += "resume=" + s("resume") + "\n";
        if (!s("delta").empty()) c += "[global:backup]\ndelta=" + s("delta") + "\n[global]\n";
        if (!s("checksum-page").empty()) c += "checksum-page=" + s("checksum-page") + "\n";
        if (!s("manifest-save-threshold").empty()) c += "manifest-save-threshold=" + s("manifest-save-threshold") + "\n";
        if (!s("expire-auto").empty()) c += "expire-auto=" + s("expire-auto") + "\n";
        if (!s("extra-global").empty()) c += s("extra-global") + "\n";
        return c;
    };
    auto sbConf = [&](int first) { std::string c; int k = first; for (auto s : sb) { std::string o = "pg" + std::to_string(k++) + "-"; if (s->h != hp || hr) c += o + "host=" + s->h->name + "\n" + o + "host-user=postgres\n"; c += o + "path=" + s->data + "\n" + o + "port=" + std::to_string(s->port) + "\n"; } return c; };
    std::string c = common(false) + "[demo]\npg1-path=" + pg->data + "\npg1-port=5432\n"; if (!hr) c += sbConf(2);
    for (auto s : sb) if (s->h != hp) fsWrite(s->h, "/etc/pgbackrest/pgbackrest.conf", common(false) + "[demo]\npg1-path=" + s->data + "\npg1-port=" + std::to_string(s->port) + "\n", 0, 0, 0644);
    fsWrite(hp, "/etc/pgbackrest/pgbackrest.conf", c, 0, 0, 0644);
    if (hr) {
        bool sw = n("sbswap") && !sb.empty(); std::string o = "pg" + std::to_string(sw ? sb.size() + 1 : 1) + "-";
        c = common(true) + "[demo]\n" + o + "host=pg1\n" + o + "host-user=postgres\n" + o + "path=" + pg->data + "\n" + o + "port=5432\n" + sbConf(sw ? 1 : 2);
        fsWrite(hr, "/etc/pgbackrest/pgbackrest.conf", c, 0, 0, 0644);
    }
}

void Run::setup()
{
    if (!this->s("tz").empty()) { setenv("TZ", this->s("tz").c_str(), 1); tzset(); }
    osInit(plan.seed);
    pgs.clear();
    rng.seedIt(plan.seed ^ 0x4A55);
    W->stick = (double)n("stick", 900) / 1000.0; W->schedMode = (int)n("sched", 0);
    W->latMax = n("lat", 20); W->fsyncLat = n("fsynclat", 200);
    W->metaOrdered = n("meta"); W->maxSteps = n("maxsteps", 60000000);
    repos = (int)n("repos", 1);
    hp = addHost("pg1");
    for (int r = 1; r <= repos; r++) remote[r] = n("remote") & (1 << (r - 1));
    if (n("remote")) hr = addHost("repo");
    if (n("standby") == 2 || (n("standby") && hr)) hs = addHost("pg2");
    if (n("clockoff")) (hr ? hr : hp)->clockOff = n("clockoff") * 1000;
    for (auto h : W->hosts) {
        uid_t u = h == hp || h == hs ? 1000 : 1001;
        fsMkdirs(h, "/tmp/pgbackrest", u, u, 0770); fsMkdirs(h, "/spool", u, u, 0750); fsMkdirs(h, "/restore", u, u, 0750);
        fsMkdirs(h, "/var/log/pgbackrest", u, u, 0750);
    }
    for (int r = 1; r <= repos; r++) fsMkdirs(repoHost(r), repoPath(r), repoUid(r), repoUid(r), 0750);
    pg = new Pg; models.push_back(pg); pg->h = hp; pg->major = (unsigned)n("pgver", 16); pg->checksum = n("checksums", 1);
    pg->maxPages = (int)n("maxpages", 24); pg->sysid = 0x6000000000000000ull + plan.seed % 1000003;
    for (int t = 0; t < n("tblspc", 0); t++) pg->tblspc.push_back({(uint32_t)(16390 + t), "/ts/t" + std::to_string(t)});
    for (auto &t : pg->tblspc) fsMkdirs(hp, t.second, 1000, 1000, 0700);
    if (int d = n("dbs", 0)) {
        if (d & 1) pg->dbs.push_back({16385, "shop", -1}); if (d & 2) pg->dbs.push_back({163840, "a b-1", -1}); if (d & 4) pg->dbs.push_back({16386, "intblspc", 0});
        if (d & 8) { pg->dbs.push_back({16388, "template0", -1}); pg->template0New = true; }
    }
    if (n("segsize")) pg->segSize = (unsigned)n("segsize") * 1024 * 1024;
    if (n("lsn0")) pg->lsn0 = (uint64_t)n("lsn0") * 1024 * 1024;
    if (n("grp")) { pg->fm = 0640; pg->dm = 0750; }
    static const char *ln[] = {"pg_wal", "postgresql.conf", "pg_xact", "userdir/sub0", "base/16384", "pg_hba.conf"}, *lt[] = {"/wal/pg_wal", "/etc/postgresql/main/postgresql.conf", "../xact", "/data2/sub0", "/fast/db/16384", "../conf/hba"};
    for (int k = 0; k < 6; k++) if (n("links") & (1 << k)) pg->links.push_back({ln[k], lt[k]});
    pg->init(plan.seed, (int)n("rels", 6), (int)n("extra", 3));
    pg->makeLinks();
    pg->archiveCmd = {"pgbackrest", "--stanza=demo", "archive-push", "%p"};
    pg->archiveEnv = {{"PATH", "/usr/bin"}};
    pg->allowDdl = n("ddl", 1); pg->tornPages = n("torn", 1); pg->queryDelayMax = n("qdelay", 2000);
    pg->archRetry = n("archretry", 1000) * 1000;
    { Pg *g = pg; pg->onPush = [g](const std::string &f, int rc) { if (rc == 0) g->acked.insert(f); }; }
    for (int k = 0; n("standby") && k < n("sbs", 1); k++) {
        Pg *s = new Pg; s->h = hs ? hs : hp; s->data = fmt("/pg%d/data", k + 2); s->port = 5433 + k; s->rng.seedIt(plan.seed * 31 + 0x5B + (uint64_t)k); s->fm = pg->fm; s->dm = pg->dm; s->archiveEnabled = false;
        for (auto &t : pg->tblspc) s->tblspc.push_back({t.first, fmt("/pg%dts/t%u", k + 2, t.first)});
        s->follow(pg); sb.push_back(s);
    }
    writeConfig();
    for (auto h : W->hosts) syncHost(h);
    W->onPower = [this](Host *h) { if (h == hp && pg->running) { pg->rebootCrash(); Pg *g = pg; at(W->now + 500000, [g] { g->archiverKick(); }); } for (auto s : sb) if (h == s->h && s->running) s->rebootCrash(); };
}

//=================================================================================================================================
// Commands
//=================================================================================================================================
Proc *Run::start(Host *h, const std::vector<std::string> &args, const std::string &cwd, int op, int uid)
{
    std::vector<std::string> a = {"pgbackrest"}; a.insert(a.end(), args.begin(), args.end());
    uid_t u = uid >= 0 ? (uid_t)uid : h == hp || h == hs ? 1000 : 1001;
    return spawn(h, a, {{"PATH", "/usr/bin"}}, u, u, cwd, op);
}
CmdRes Run::wait(Proc *p, usec limit)
{
    CmdRes r; r.p = p; r.t0 = p->startAt;
    bool ok = runUntil([p] { return p->exited; }, limit ? limit : 4 * 3600 * 1000000ll);
    r.out = *p->capOut; r.err = *p->capErr; r.t1 = W->now;
    if (!ok) { r.done = false; return r; }
    r.done = true;
    if (WIFEXITED(p->exitStatus)) r.rc = WEXITSTATUS(p->exitStatus); else { r.sig = WTERMSIG(p->exitStatus); r.rc = 128 + r.sig; }
    return r;
}
CmdRes Run::cmd(Host *h, const std::vector<std::string> &args, const std::string &cwd, int op, int uid)
{
    last = wait(start(h, args, cwd, op, uid)); return last;
}
CmdRes Run::quiet(Host *h, const std::vector<std::string> &args, const std::string &cwd, int uid)
{
    bool f = W->faultsOn; int co = W->curOp; W->faultsOn = false; W->curOp = -2;
    CmdRes r = wait(start(h, args, cwd, -1, uid));
    W->faultsOn = f; W->curOp = co;
    return r;
}
// an asynchronous archive-get left by an earlier recovery may still be filling the spool
void Run::waitGetAsync() { bool f = W->faultsOn; W->faultsOn = false; runUntil([] { for (auto &kv : W->procs) { Proc *p = kv.second; if (!p->exited) for (auto &x : p->argv) if (x.find("archive-get") == 0) return false; } return true; }, 600000000ll); W->faultsOn = f; }
// a cluster does not archive and recover at the same time (both use the same lock)
void Run::waitArchiver() { bool f = W->faultsOn; W->faultsOn = false; drainWal(900000000ll); runUntil([] { for (auto &kv : W->procs) { Proc *p = kv.second; if (!p->exited) for (auto &x : p->argv) if (x.find("archive-push") == 0) return false; } return true; }, 600000000ll); W->faultsOn = f; W->stuckWhy.clear(); }
void Run::settle(usec limit) { runUntil([] { return aliveCount() == 0; }, limit); if (W->violation.empty()) W->stuckWhy.clear(); }

bool Run::drainWal(usec limit)
{
    Pg *g = pg;
    g->archiverKick();
    bool ok = runUntil([g] { return g->readyCount() == 0 && !g->pusher; }, limit);
    return ok;
}

CmdRes Run::backup(const std::string &type, int repo, const std::vector<std::string> &extra)
{
    std::vector<std::string> a = {"--stanza=demo", "backup", "--repo=" + std::to_string(repo)};
    if (!type.empty()) a.push_back("--type=" + type);
    a.insert(a.end(), extra.begin(), extra.end());
    usec t0 = W->now;
    RepoInfo before = info(repo); std::set<std::string> was; for (auto &b : before.backups) was.insert(b.label);
    CmdRes r = cmd(repoHost(repo), a, "/", opIdx);
    vars["label"] = "";
    if (r.ok()) {                                                   // a successful backup is listed from now on
        RepoInfo ri = info(repo); std::string l;
        for (auto &b : ri.backups) if (!was.count(b.label)) l = b.label;
        if (ri.ok && !l.empty()) { completed[repo].insert(l); window[l] = {t0, W->now}; vars["label"] = l; }
        else fail("backup-not-listed", "backup returned success but info does not list it: " + ri.raw.substr(0, 500) + " output: " + r.why());
    }
    if (r.all().find("resumable backup") != std::string::npos) probe("resume-found");
    return r;
}

static const std::string jstr(const Json *j, const char *a, const char *b = nullptr) { if (!j) return ""; const Json *x = j->get(a); if (b && x) x = x->get(b); return x && x->t == Json::STR ? x->str : ""; }
static uint64_t lsnParse(const std::string &s) { unsigned a = 0, b = 0; if (sscanf(s.c_str(), "%X/%X", &a, &b) != 2) return 0; return ((uint64_t)a << 32) | b; }

RepoInfo Run::info(int repo)
{
    CmdRes r = quiet(repoHost(repo), {"--stanza=demo", "info", "--output=json", "--repo=" + std::to_string(repo), "--log-level-console=off"});
    return parseInfo(r, repo);
}
RepoInfo Run::parseInfo(const CmdRes &r, int repo)
{
    RepoInfo ri; ri.raw = r.all();
    if (!r.ok()) return ri;
    Json j; if (!Json::parse(r.out, j) || j.t != Json::ARR) return ri;
    ri.ok = true;
    for (auto &st : j.arr) {
        if (const Json *sc = st.get("status")) if (const Json *c = sc->get("code")) ri.code = (int)c->num;
        if (const Json *ar = st.get("archive")) for (auto &x : ar->arr) ri.archive.push_back({jstr(&x, "id"), {jstr(&x, "min"), jstr(&x, "max")}});
        const Json *bk = st.get("backup"); if (!bk) continue;
        for (auto &b : bk->arr) {
            BkInfo i; i.label = jstr(&b, "label"); i.prior = jstr(&b, "prior"); i.type = jstr(&b, "type"); i.startSeg = jstr(&b, "archive", "start"); i.stopSeg = jstr(&b, "archive", "stop"); i.repo = repo;
            i.startLsn = lsnParse(jstr(&b, "lsn", "start")); i.stopLsn = lsnParse(jstr(&b, "lsn", "stop"));
            if (const Json *t = b.get("timestamp")) { if (t->get("start")) i.tStart = (int64_t)t->get("start")->num; if (t->get("stop")) i.tStop = (int64_t)t->get("stop")->num; }
            if (const Json *rf = b.get("reference")) for (auto &x : rf->arr) i.ref.push_back(x.str);
            if (const Json *e = b.get("error")) i.error = e->b;
            if (const Json *d = b.get("database")) if (d->get("id")) i.dbId = (int)d->get("id")->num;
            ri.backups.push_back(i);
        }
    }
    return ri;
}

const BackupRec *Run::modelBackup(const BkInfo &b) const
{
    for (auto g : models) for (auto &m : g->backups) if (m.startLsn == b.startLsn && m.stopLsn == b.stopLsn) return &m;
    return nullptr;
}

std::vector<std::string> Run::restoreArgs(RestoreOpt &o)
{
    if (o.dir.empty()) { o.dir = "/restore/d" + std::to_string(++restoreSeq); fsMkdirs(hp, o.dir, 1000, 1000, 0700); }
    std::vector<std::string> a = {"--stanza=demo", "restore", "--pg1-path=" + o.dir};
    if (o.repo) a.push_back("--repo=" + std::to_string(o.repo));
    if (!o.label.empty()) a.push_back("--set=" + o.label);
    if (!pg->tblspc.empty() && !o.noTs) a.push_back("--tablespace-map-all=" + o.dir + "-ts");
    if (!o.targetType.empty()) a.push_back("--type=" + o.targetType);
    if (!o.target.empty()) a.push_back("--target=" + o.target);
    if (!o.action.empty()) a.push_back("--target-action=" + o.action);
    if (o.delta) a.push_back("--delta");
    if (o.force) a.push_back("--force");
    a.insert(a.end(), o.extra.begin(), o.extra.end());
    return a;
}
CmdRes Run::restore(RestoreOpt &o)
{
    std::vector<std::string> a = restoreArgs(o);
    return o.fault ? cmd(hp, a, "/", opIdx) : quiet(hp, a);
}

std::string Run::getWal(const std::string &file, int repo, std::string &out, int *rc)
{
    std::string d = "/restore/walget"; fsMkdirs(hp, d, 1000, 1000, 0700);
    fsUnlink(hp, d + "/" + file);
    std::vector<std::string> a = {"--stanza=demo", "archive-get", "--no-archive-async", file, d + "/" + file};
    if (repo) a.push_back("--repo=" + std::to_string(repo));
    CmdRes r = quiet(hp, a);
    if (rc) *rc = r.done ? r.rc : -1;
    if (!r.done) return "archive-get did not terminate";
    if (r.rc == 0) { if (!fsRead(hp, d + "/" + file, out)) return "archive-get returned 0 but wrote no file"; fsUnlink(hp, d + "/" + file); return ""; }
    return "archive-get rc=" + std::to_string(r.rc) + " " + r.all();
}

//---------------------------------------------------------------------------------------------------------------------------------
std::string Run::checkExtras(const std::string &dir, usec t0, usec t1)
{
    for (auto &kv : pg->extra) {
        if (kv.second.empty() || kv.first == "postmaster.opts") continue;
        std::string cur;
        bool have = fsRead(hp, dir + "/" + kv.first, cur);
        bool should = kv.second.front().from <= t0;
        if (!have) { if (should) return "file missing after restore: " + kv.first; continue; }
        bool ok = false;
        for (auto &v : kv.second) if (v.from <= t1 && v.to >= t0 && v.data == cur) ok = true;
        if (!ok) return fmt("file content wrong after restore: %s (size %zu)", kv.first.c_str(), cur.size());
    }
    return "";
}

std::string Run::recover(const std::string &dir, Recov &rv, bool needAll, uint64_t stopAt, const BackupRec *expect)
{
    // pg_control
    std::string ctl; const PgVer &v = pgVer(pg->major);
    if (!fsRead(hp, dir + "/global/pg_control", ctl)) return "pg_control missing";
    if (ctl.size() != 8192) return "pg_control size wrong";
    uint32_t crc; memcpy(&crc, &ctl[v.crcOff], 4);
    if (crc != crc32c(ctl.data(), v.crcOff)) return "pg_control crc invalid";
    uint64_t sid; memcpy(&sid, &ctl[0], 8); if (sid != pg->sysid) return "pg_control system id wrong";
    uint32_t state; memcpy(&state, &ctl[16], 4); if (state == 5) return "pg_control of a standby";
    std::string label; if (!fsRead(hp, dir + "/backup_label", label)) return "backup_label missing";
    size_t p = label.find("START WAL LOCATION: "); if (p == std::string::npos) return "backup_label malformed";
    uint64_t start = lsnParse(label.substr(p + 20)); rv.startLsn = start;
    p = label.find("START TIMELINE: "); uint32_t tli = p == std::string::npos ? 1 : (uint32_t)atoi(label.c_str() + p + 16);
    if (expect && expect->startLsn != start) return fmt("backup_label start %s does not match backup start %s", lsnStr(start).c_str(), lsnStr(expect->startLsn).c_str());
    if (expect && expect->label != label) return "backup_label content differs from what PostgreSQL returned";
    if (!fsExists(hp, dir + "/recovery.signal")) return "recovery.signal missing";
    std::string conf; if (!fsRead(hp, dir + "/postgresql.auto.conf", conf)) return "postgresql.auto.conf missing";
    std::string rc; size_t q = 0;
    while ((q = conf.find("restore_command = '", q)) != std::string::npos) { q += 19; rc = ""; while (q < conf.size()) { if (conf[q] == '\'') { if (q + 1 < conf.size() && conf[q + 1] == '\'') { rc += '\''; q += 2; continue; } break; } rc += conf[q++]; } }
    if (rc.empty()) return "restore_command missing";
    if (fsExists(hp, dir + "/postmaster.pid")) return "postmaster.pid restored";
    for (auto d : {"/pg_wal", "/pg_xact", "/pg_notify", "/pg_stat_tmp", "/pg_subtrans", "/pg_twophase", "/pg_replslot", "/pg_dynshmem", "/pg_snapshots", "/pg_serial", "/pg_logical", "/base", "/base/1"})
        { Inode *i = fsLookup(hp, dir + d); if (!i || i->type != TDir) return std::string("directory missing after restore: ") + d; if ((i->mode & 0777) != pg->dm) return std::string("directory mode wrong after restore: ") + d; }
    // tablespaces must be links to existing directories
    for (auto &t : pg->tblspc) { Inode *i = fsLookup(hp, dir + "/pg_tblspc/" + std::to_string(t.first), false); if (!i || i->type != TLink) return "tablespace link missing"; if (!fsLookup(hp, dir + "/pg_tblspc/" + std::to_string(t.first) + "/" + pg->tblId())) return "tablespace directory missing"; }

    // load relation files. Token ~0 marks a page that is not a valid image (torn), which only WAL replay may repair.
    RelState st;
    auto load = [&](const std::string &rel, Inode *i) -> std::string {
        auto &vec = st[rel];
        const std::string &d = *i->data;
        if (d.size() % PAGE) { }
        for (size_t b = 0; b < d.size() / PAGE; b++) {
            const char *pp = d.data() + b * PAGE;
            uint32_t hi, lo; memcpy(&hi, pp, 4); memcpy(&lo, pp + 4, 4);
            uint64_t tok = ((uint64_t)hi << 32) | lo;
            bool zero = true; for (size_t k = 0; k < PAGE; k++) if (pp[k]) { zero = false; break; }
            if (zero) tok = 0;
            else if (memcmp(pg->pageOf(rel, (uint32_t)b, tok).data(), pp, PAGE)) tok = ~0ull;
            vec.push_back(tok);
        }
        if (d.size() % PAGE) vec.push_back(~0ull);
        return "";
    };
    std::vector<std::string> roots = {"base", "global"};
    for (auto &t : pg->tblspc) roots.push_back("pg_tblspc/" + std::to_string(t.first) + "/" + pg->tblId());
    std::string unexpected;
    for (auto &r : roots) {
        std::function<void(const std::string &, Inode *)> one = [&](const std::string &f, Inode *i) {
            if (i->type == TLink) {                                 // a directory that is a link: a file link holds no relation
                Inode *t = fsLookup(hp, f); if (t && t->type == TDir) for (auto &e : fsList(hp, f)) fsWalk(hp, f + "/" + e, one);
                return;
            }
            if (i->type != TFile) return;
            std::string rel = r + f.substr((dir + "/" + r).size());
            if (pg->extra.count(rel) || rel == "global/pg_control") return;
            std::string base = rel.substr(rel.rfind('/') + 1);
            if (!(base[0] >= '0' && base[0] <= '9')) { unexpected = rel; return; }
            if ((i->mode & 0777) != pg->fm) unexpected = rel + " (mode)";
            load(rel, i);
        };
        fsWalk(hp, dir + "/" + r, one);
    }
    if (!unexpected.empty()) return "unexpected file in restored cluster: " + unexpected;

    // timeline history, as PostgreSQL with recovery_target_timeline=latest
    auto fetch = [&](const std::string &name, std::string &content, std::string &err) -> int {
        std::string cmdl = rc;
        auto sub = [&](const char *pat, const std::string &val) { size_t k; while ((k = cmdl.find(pat)) != std::string::npos) cmdl.replace(k, 2, val); };
        sub("%f", name); sub("%p", "pg_wal/RECOVERYXLOG");
        std::vector<std::string> a = shSplit(cmdl); a.erase(a.begin());
        CmdRes g = quiet(hp, a, dir);
        if (!g.done) { err = "archive-get did not terminate for " + name + ": " + W->stuckWhy; return -1; }
        if (g.rc == 0 && g.sig == 0) { if (!fsRead(hp, dir + "/pg_wal/RECOVERYXLOG", content)) { err = "archive-get returned success without file " + name; return -1; } fsUnlink(hp, dir + "/pg_wal/RECOVERYXLOG"); return 0; }
        if (g.rc == 1 && g.sig == 0) return 1;
        err = fmt("archive-get %s failed rc=%d: %s", name.c_str(), g.rc, g.why().c_str()); return -1;
    };
    fsMkdirs(hp, dir + "/pg_wal", 1000, 1000, 0700);
    std::vector<std::pair<uint32_t, uint64_t>> tlis = {{tli, 0}};
    if (pg->tli > tli || pg->probeTli) for (uint32_t t = tli + 1;; t++) {
        char hn[32]; snprintf(hn, sizeof hn, "%08X.history", t); std::string c, err; int r = fetch(hn, c, err);
        if (r < 0) return err;
        if (r == 1) { if (pg->acked.count(hn)) return std::string("acknowledged timeline history not found during recovery: ") + hn; break; }
        if (c != pg->walContent[hn]) return std::string("timeline history content differs: ") + hn;
        size_t ls = c.rfind("\n\n"); std::string l = c.substr(0, ls); size_t nl = l.rfind('\n'); l = nl == std::string::npos ? l : l.substr(nl + 1);
        size_t tab = l.find('\t'); tlis.push_back({t, lsnParse(l.substr(tab + 1))});
    }
    // replay
    uint64_t segStart = start & ~(uint64_t)(pg->segSize - 1); uint64_t reached = start; bool endSeen = false; bool stopHit = false; std::string nextSeg;
    for (;;) {
        uint32_t st_ = tli; for (auto &x : tlis) if (x.second / pg->segSize <= segStart / pg->segSize) st_ = x.first;
        char sn[64]; snprintf(sn, sizeof sn, "%08X%08X%08X", st_, (unsigned)(segStart >> 32), (unsigned)((segStart & 0xFFFFFFFF) / pg->segSize));
        std::string seg, ferr;
        int fr = fetch(sn, seg, ferr);
        if (fr < 0) return ferr;
        if (fr == 1 && !fsRead(hp, dir + "/pg_wal/" + sn, seg)) { nextSeg = sn; break; }   // end of archive, and not in the backup (archive-copy)
        if (fr == 1) probe("wal-from-backup");
        auto wc = pg->walContent.find(sn);
        if (wc != pg->walContent.end() && wc->second != seg) return std::string("WAL segment content differs from what was pushed: ") + sn;
        if (wc == pg->walContent.end()) return std::string("WAL segment was never completed by PostgreSQL: ") + sn;
        std::vector<Rec> rs; std::string err;
        if (!walParse(seg, segStart, pg->sysid, pg->segSize, rs, &err)) return std::string("WAL segment invalid ") + sn + ": " + err;
        rv.segs++; rv.lastSeg = sn;
        for (auto &r : rs) {
            if (r.lsn < start) continue;
            if (stopAt && r.end > stopAt) { stopHit = true; break; }
            switch (r.type) {
                case RPage: { auto &vec = st[r.rel]; if (vec.size() <= r.blk) vec.resize(r.blk + 1, 0); vec[r.blk] = r.token; break; }
                case RCreate: st[r.rel] = {}; break;
                case RDrop: st.erase(r.rel); break;
                case RTrunc: if (st[r.rel].size() > r.blk) st[r.rel].resize(r.blk); break;
                case RBackupEnd: if (r.token == start) endSeen = true; break;
                default: break;
            }
            reached = r.end;
        }
        if (stopHit) break;
        segStart += pg->segSize;
    }
    rv.reached = reached; rv.consistent = endSeen;
    if (!endSeen) return fmt("recovery cannot reach consistency: end-of-backup not found in archived WAL (start %s, reached %s after %d segments)", lsnStr(start).c_str(), lsnStr(reached).c_str(), rv.segs);
    if (needAll) {                                                  // everything acknowledged must have been replayed
        if (!stopHit && pg->acked.count(nextSeg)) return "acknowledged WAL segment not found during recovery: " + nextSeg;
    }
    RelState want = pg->stateAt(reached, tli);
    for (auto &kv : want) {
        if (ignoreRel && ignoreRel(kv.first)) continue;
        auto it = st.find(kv.first);
        if (it == st.end()) { if (kv.second.empty()) return "relation missing after recovery: " + kv.first; return "relation missing after recovery: " + kv.first; }
        if (it->second.size() != kv.second.size()) return fmt("relation %s has %zu pages after recovery, expected %zu", kv.first.c_str(), it->second.size(), kv.second.size());
        for (size_t b = 0; b < kv.second.size(); b++) if (it->second[b] != kv.second[b])
            return fmt("relation %s block %zu is %llx after recovery, expected %llx", kv.first.c_str(), b, (unsigned long long)it->second[b], (unsigned long long)kv.second[b]);
    }
    for (auto &kv : st) if (!want.count(kv.first) && !(ignoreRel && ignoreRel(kv.first))) return "relation present after recovery that should not exist: " + kv.first;
    return "";
}

std::string Run::restoreAndCheck(const std::string &label, int repo, const std::string &why, bool needAll)
{
    RestoreOpt o; o.label = label; o.repo = repo;
    waitGetAsync();
    CmdRes r = restore(o);
    if (!r.done) return why + ": restore of " + label + " did not terminate: " + W->stuckWhy;
    if (!r.ok()) return why + ": restore of " + label + fmt(" failed rc=%d sig=%d: ", r.rc, r.sig) + r.why();
    Recov rv; const BackupRec *m = nullptr;
    std::string bl; fsRead(hp, o.dir + "/backup_label", bl);
    Pg *save = pg; for (auto g : models) for (auto &x : g->backups) if (x.label == bl) { m = &x; pg = g; }
    struct Back { Pg *&p; Pg *v; ~Back() { p = v; } } back{pg, save};
    if (!m) return why + ": restored backup_label does not belong to any backup PostgreSQL ran (" + label + ")";
    std::string e = recover(o.dir, rv, needAll, 0, m);
    if (!e.empty()) return why + ": " + label + ": " + e;
    e = checkExtras(o.dir, m->t0, m->t1);
    if (!e.empty()) return why + ": " + label + ": " + e;
    probe("restore-checked"); probe("wal-replayed", rv.segs);
    fsRemoveTree(hp, o.dir); fsRemoveTree(hp, o.dir + "-ts");
    return "";
}

std::string Run::checkAll(const std::string &why, bool all)
{
    for (int r = 1; r <= repos; r++) {
        RepoInfo ri = info(r);
        if (!ri.ok) return why + ": info failed: " + ri.raw.substr(0, 800);
        std::vector<BkInfo> v = ri.backups;
        if (!all && v.size() > 2) { BkInfo l = v.back(), x = v[rng.below(v.size() - 1)]; v = {x, l}; }
        for (auto &b : v) { std::string e = restoreAndCheck(b.label, r, why + fmt(" (repo%d)", r)); if (!e.empty()) return e; }
    }
    return "";
}

std::vector<std::string> Run::missingAcked(int repo)
{
    std::vector<std::string> bad;
    for (auto &f : pg->acked) { std::string out; int rc; std::string e = getWal(f, repo, out, &rc); if (!e.empty()) bad.push_back(f + ": " + e.substr(0, 300)); else if (out != pg->walContent[f]) bad.push_back(f + ": content differs"); }
    return bad;
}

} // namespace sim
