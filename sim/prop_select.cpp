// C25: which backup a restore picks and what recovery it asks PostgreSQL for
#include "props.h"
#include "prop_more.h"
#include <algorithm>

namespace sim {

static std::map<std::string, std::string> settings(const std::string &conf)    // as PostgreSQL reads them: the last one wins
{
    std::map<std::string, std::string> v; size_t i = 0;
    while (i < conf.size()) {
        size_t e = conf.find('\n', i); if (e == std::string::npos) e = conf.size(); std::string l = conf.substr(i, e - i); i = e + 1;
        size_t b = l.find_first_not_of(" \t"); if (b == std::string::npos || l[b] == '#') continue;
        size_t q = l.find('=', b); if (q == std::string::npos) continue;
        std::string k = l.substr(b, q - b), x = l.substr(q + 1); while (!k.empty() && (k.back() == ' ' || k.back() == '\t')) k.pop_back();
        size_t s = x.find_first_not_of(" \t"); x = s == std::string::npos ? "" : x.substr(s);
        if (!x.empty() && x[0] == '\'') { std::string o; for (size_t c = 1; c < x.size(); c++) { if (x[c] == '\'') { if (c + 1 < x.size() && x[c + 1] == '\'') { o += '\''; c++; continue; } break; } o += x[c]; } x = o; }
        v[k] = x;
    }
    return v;
}
static std::string tstr(int64_t t, int64_t off) { time_t x = (time_t)(t + off); struct tm tm; gmtime_r(&x, &tm); char b[32]; strftime(b, sizeof b, "%Y-%m-%d %H:%M:%S", &tm); return b; }

bool selectOp(Run &run, int i, const Op &op)
{
    Pg *g = run.pg;
    if (op.name == "autoconf") {                                    // settings of the cluster, some left by an earlier recovery
        Rng x((uint64_t)op.n("xseed") + 3); std::string c = "# Do not edit this file manually!\nshared_buffers = '128MB'\n";
        if (x.chance(0.6)) c += "recovery_target_time = '2001-01-01 00:00:00'\n"; if (x.chance(0.4)) c += "recovery_target_timeline='7'\n"; if (x.chance(0.4)) c += "recovery_target_action\t=\t'shutdown'\n";
        if (x.chance(0.4)) c += " recovery_target_inclusive = 'false'\n"; if (x.chance(0.3)) c += "recovery_target_name = 'old'\n"; if (x.chance(0.3)) c += "recovery_target = 'immediate'\n"; if (x.chance(0.3)) c += "recovery_target_xid = '5'\n"; if (x.chance(0.3)) c += "recovery_target_lsn = '0/1'\n";
        if (x.chance(0.5)) c += "restore_command = 'false'\n"; if (x.chance(0.5)) c += "primary_conninfo = 'host=old'\n"; if (x.chance(0.5)) c += "work_mem = '4MB'"; if (x.chance(0.5)) c += "\n";
        g->setExtra("postgresql.auto.conf", c); g->extraChange = false; run.sleepFor(1200000);
        return true;
    }
    if (op.name == "fork") {                                        // somebody promoted a test restore: a history file of a timeline that left ours at an earlier position
        if (g->walOrder.size() < 2) return true;
        Rng x((uint64_t)op.n("xseed") + 9); uint64_t lo = g->initialLsn, at = lo + x.below(g->lsn - lo) + 8; at &= ~7ull;
        if (!g->backups.empty() && x.chance(0.5)) { auto &b = g->backups[x.below(g->backups.size())]; at = x.chance(0.5) ? b.startLsn : b.stopLsn + 64; if (x.chance(0.3)) at += 8; }
        if (at > g->lsn) at = g->lsn;
        uint32_t t = g->tli + 1 + (uint32_t)x.below(3) * 9; char hn[64]; snprintf(hn, sizeof hn, "%08X.history", t);
        std::string hist; std::string cur = fmt("%08X.history", g->tli); if (g->walContent.count(cur)) { uint64_t f = 0; hist = g->walContent[cur]; unsigned a, b2; size_t tab = hist.rfind('\t', hist.rfind("no recovery")); tab = hist.rfind('\t', hist.rfind("no recovery") - 2); if (tab != std::string::npos && sscanf(hist.c_str() + tab + 1, "%X/%X", &a, &b2) == 2) f = (uint64_t)a << 32 | b2; if (at < f) return true; }
        hist += fmt("%u\t%s\tno recovery target specified\n\n", g->tli, lsnStr(at).c_str());
        g->walContent[hn] = hist; fsWrite(run.hp, g->walDir() + "/" + hn, hist, g->uid, g->gid); fsWrite(run.hp, g->walDir() + "/archive_status/" + hn + ".ready", "", g->uid, g->gid); g->noteReady(); g->archiverKick();
        run.vars["fork"] = S((int64_t)at); run.vars["forktli"] = S(t); run.vars["forkfrom"] = S(g->tli);
        run.drainWal();
        return true;
    }
    if (op.name != "pitr") return false;

    Rng x((uint64_t)op.n("xseed") + 21);
    g->stopActivity(); if (op.n("flush", 1)) g->switchWal();
    run.drainWal(); run.waitArchiver(); run.waitGetAsync(); bool on = g->archiverOn; g->archiverOn = false; run.settle(300000000ll); W->stuckWhy.clear();
    struct Back { Pg *g; bool on; ~Back() { g->archiverOn = on; g->archiverKick(); } } back{g, on};
    std::vector<RepoInfo> ri(1); std::vector<BkInfo> all;
    for (int r = 1; r <= run.repos; r++) { ri.push_back(run.info(r)); if (!ri.back().ok) { run.fail("info", fmt("info failed on repo%d: ", r) + ri.back().raw.substr(0, 500)); return true; } for (auto &b : ri.back().backups) all.push_back(b); }
    int hide = run.repos > 1 && x.chance(0.25) ? (int)x.range(1, run.repos) : 0;
    int only = x.chance(0.3) ? (int)x.range(1, run.repos) : 0;
    std::string type = op.s("kind"); Run::RestoreOpt o; o.fault = true; o.repo = only;
    bool sel = type == "time" || type == "lsn";
    bool byLabel = x.chance(sel ? 0.15 : 0.3); if (byLabel && !all.empty()) { o.label = all[x.below(all.size())].label; if (x.chance(0.1)) o.label = "20200101-000000F"; } else byLabel = false;
    // target
    int64_t tt = 0; uint64_t tl = 0;
    if (type == "time") {
        if (!all.empty() && x.chance(0.8)) tt = all[x.below(all.size())].tStop + x.range(-1, 1); else if (!g->recs.empty()) tt = g->recs[x.below(g->recs.size())].time + x.range(-2, 2); else tt = wallSec(run.hp);
        switch (x.below(6)) {
            case 0: { time_t q = (time_t)tt; struct tm tm; localtime_r(&q, &tm); char b[32]; strftime(b, sizeof b, "%Y-%m-%d %H:%M:%S", &tm); struct tm back2 = tm; back2.tm_isdst = -1; if (mktime(&back2) != q) tt = mktime(&back2); o.target = b; break; }
            case 1: o.target = tstr(tt, 0) + "+00"; break;
            case 2: o.target = tstr(tt, 0) + ".123456+00"; break;
            case 3: o.target = tstr(tt, 5 * 3600 + 1800) + (x.chance(0.5) ? "+0530" : "+05:30"); break;
            case 4: o.target = tstr(tt, -3 * 3600 - 1800) + (x.chance(0.5) ? "-0330" : ".9-03:30"); break;
            case 5: o.target = tstr(tt, -8 * 3600) + "-08"; break;
        }
    } else if (type == "lsn") {
        if (!all.empty() && x.chance(0.8)) tl = all[x.below(all.size())].stopLsn + (uint64_t)x.pick(std::vector<int64_t>{0, 0, -1, 1, 8, -8, 4096}); else tl = g->initialLsn + x.below(g->lsn - g->initialLsn + 1);
        o.target = lsnStr(tl); if (x.chance(0.3)) { char b[64]; snprintf(b, sizeof b, "%x/%08x", (unsigned)(tl >> 32), (unsigned)tl); o.target = b; }
    } else if (type == "name") o.target = pick(x, {"rp1", "before upgrade", "a=b"});
    else if (type == "xid") o.target = S(x.range(3, 100000));
    if (type != "default") o.targetType = type;
    std::string action, tline; bool excl = false;
    bool targeted = sel || type == "name" || type == "xid";
    if ((targeted || type == "immediate") && x.chance(0.6)) { action = pick(x, {"promote", "shutdown", "pause"}); o.action = action; }
    if (sel || type == "xid") if (x.chance(0.4)) { excl = true; o.extra.push_back("--target-exclusive"); }
    if ((targeted || type == "default" || type == "standby") && x.chance(0.4)) {
        std::vector<std::string> c = {"current", "latest", S(g->tli), fmt("0x%X", g->tli)}; if (run.vars.count("forktli")) { c.push_back(run.vars["forktli"]); c.push_back(fmt("0x%X", (unsigned)atoi(run.vars["forktli"].c_str()))); }
        tline = c[x.below(c.size())]; o.extra.push_back("--target-timeline=" + tline);
    }
    std::string ro; if (type != "none" && type != "preserve" && x.chance(0.3)) { ro = pick(x, {"primary_conninfo=host=10.0.0.1 user=repl", "primary-slot-name=slot1"}); o.extra.push_back("--recovery-option=" + ro); }
    bool archOff = type != "preserve" && x.chance(0.2); if (archOff) o.extra.push_back("--archive-mode=off");
    // what must be selected
    int want = -2; BkInfo exp; int curId = (int)run.models.size(); std::string whyNone;     // -1: must be refused
    for (int r = only ? only : 1; r <= (only ? only : run.repos) && want == -2; r++) {
        auto &v = ri[(size_t)r].backups; if (r == hide || v.empty()) continue;
        if (byLabel) { for (auto &b : v) if (b.label == o.label) { want = r; exp = b; } }
        else if (sel) { for (auto it = v.rbegin(); it != v.rend() && want == -2; ++it) if (type == "time" ? it->tStop < tt : it->stopLsn <= tl) { want = r; exp = *it; } }
        else if (v.back().dbId < curId) { want = -1; whyNone = "latest backup is of a prior cluster"; }
        else { want = r; exp = v.back(); }
    }
    if (want == -2) { want = -1; whyNone = "no backup satisfies the request"; }
    const BackupRec *m = want > 0 ? run.modelBackup(exp) : nullptr; Pg *mp = nullptr; if (m) for (auto q : run.models) for (auto &b : q->backups) if (&b == m) mp = q;
    if (want > 0 && !mp) { run.fail("select", "listed backup " + exp.label + " does not belong to any backup PostgreSQL ran"); return true; }
    // timelines: must the backup be refused, may it be refused?
    bool refuse = false, maybe = false;
    if (want > 0) {
        uint32_t bt = (uint32_t)strtoul(exp.startSeg.substr(0, 8).c_str(), nullptr, 16);
        auto eff = tline; if (eff.empty()) eff = type == "immediate" ? "current" : "latest";
        if (eff != "current") {
            uint32_t tg = bt;
            if (eff == "latest") { for (auto &wc : mp->walContent) if (wc.first.size() == 16 && wc.first.compare(8, 8, ".history") == 0 && mp->acked.count(wc.first)) tg = std::max(tg, (uint32_t)strtoul(wc.first.substr(0, 8).c_str(), nullptr, 16)); }
            else tg = (uint32_t)strtoul(eff.c_str(), nullptr, eff.substr(0, 2) == "0x" ? 16 : 10);
            if (tg != bt) {
                std::string hn = fmt("%08X.history", tg);
                if (!mp->walContent.count(hn)) refuse = true;
                else {
                    refuse = true; std::string hc = mp->walContent[hn]; size_t p0 = 0;
                    while (p0 < hc.size()) { size_t e = hc.find('\n', p0); if (e == std::string::npos) e = hc.size(); std::string l = hc.substr(p0, e - p0); p0 = e + 1; unsigned t2, a, b2; if (sscanf(l.c_str(), "%u\t%X/%X", &t2, &a, &b2) == 3 && t2 == bt) { uint64_t f = (uint64_t)a << 32 | b2; if (exp.startLsn < f) { refuse = false; if (exp.stopLsn > f) maybe = true; } } }
                }
            }
        }
    }
    // hide a repository's backup.info
    std::vector<std::pair<std::string, std::string>> hid;
    if (hide) for (const char *f : {"/backup/demo/backup.info", "/backup/demo/backup.info.copy"}) { std::string p = run.repoPath(hide) + f, c; if (fsRead(run.repoHost(hide), p, c)) { hid.push_back({p, c}); fsWrite(run.repoHost(hide), p, x.chance(0.5) ? "" : "garbage\n", run.repoUid(hide), run.repoUid(hide)); } }
    std::string mine; bool pre = type == "preserve" && x.chance(0.6);
    if (pre) { mine = "# mine\nrecovery_target_name = 'keep'\nwork_mem = '" + S(x.range(1, 99)) + "MB'\n"; o.dir = "/restore/d" + S(++run.restoreSeq); fsMkdirs(run.hp, o.dir, 1000, 1000, 0700); fsWrite(run.hp, o.dir + "/postgresql.auto.conf", mine, 1000, 1000); }
    int f0 = run.faultsFired();
    CmdRes r = run.restore(o); bool fault = run.faultsFired() > f0;
    for (auto &hh : hid) fsWrite(run.repoHost(hide), hh.first, hh.second, run.repoUid(hide), run.repoUid(hide));
    W->faultsOn = false;
    struct FOn { ~FOn() { W->faultsOn = true; } } fon;
    std::string what = "restore --type=" + type + (o.target.empty() ? "" : " --target='" + o.target + "'") + (byLabel ? " --set=" + o.label : "") + (only ? " --repo=" + S(only) : "") + (tline.empty() ? "" : " --target-timeline=" + tline) + (hide ? fmt(" (repo%d unreadable)", hide) : "");
    if (!r.ok()) {
        if (want == -1 || refuse) {
            run.probe(refuse && want > 0 ? "sel-refused-tli" : "sel-refused");
            std::string k; fsRead(run.hp, o.dir + "/postgresql.auto.conf", k); if (fsList(run.hp, o.dir).size() != (pre ? 1u : 0u) || k != mine) run.fail("refused-dirty", what + " was refused but changed the target directory");
        } else if (!fault && !maybe) run.fail("select-failed", what + fmt(" failed rc=%d although backup %s of repo%d qualifies: ", r.rc, exp.label.c_str(), want) + r.why());
        return true;
    }
    std::string bl; fsRead(run.hp, o.dir + "/backup_label", bl); BkInfo got; bool found = false; const BackupRec *gm = nullptr; Pg *gp = nullptr;
    for (auto q : run.models) for (auto &b : q->backups) if (b.label == bl) { gm = &b; gp = q; }
    if (gm) for (auto &b : all) if (run.modelBackup(b) == gm) { got = b; found = true; }
    if (!found) { run.fail("select", what + " restored something that is not a listed backup"); return true; }
    if (fault) {                                                    // a repository may have been unreadable: the choice must still be valid
        if (byLabel && got.label != o.label) { run.fail("select", what + " restored " + got.label); return true; }
        if (!byLabel && sel && !(type == "time" ? got.tStop < tt : got.stopLsn <= tl)) { run.fail("select", what + " restored " + got.label + " which ends after the target"); return true; }
        if (only && got.repo != only) { run.fail("select", what + fmt(" restored %s of repo%d", got.label.c_str(), got.repo)); return true; }
    } else {
        if (want == -1) { run.fail("select-none", what + " restored " + got.label + " although " + whyNone); return true; }
        if (refuse) { run.fail("select-tli", what + " restored " + got.label + " although the target timeline does not contain it"); return true; }
        if (got.label != exp.label || got.repo != want) { run.fail("select", what + fmt(" restored %s of repo%d, expected %s of repo%d", got.label.c_str(), got.repo, exp.label.c_str(), want)); return true; }
    }
    run.probe("sel-ok-" + type);
    // recovery settings
    std::string conf; bool have = fsRead(run.hp, o.dir + "/postgresql.auto.conf", conf); auto st = settings(conf);
    std::string orig; if (gp->extra.count("postgresql.auto.conf")) for (auto &e : gp->extra["postgresql.auto.conf"]) if (e.from <= gm->t0) orig = e.data;
    bool sig = fsExists(run.hp, o.dir + "/recovery.signal"), ssig = fsExists(run.hp, o.dir + "/standby.signal");
    auto bad = [&](const std::string &e) { run.fail("settings", what + ": " + e + " in postgresql.auto.conf:\n" + conf.substr(0, 1500)); };
    if (type == "preserve") { if (have != pre || conf != mine) bad("file was not preserved"); else if (sig || ssig) run.fail("settings", what + " wrote a signal file"); return true; }
    auto so = settings(orig); std::map<std::string, std::string> ex;
    for (auto &k : so) if (k.first.compare(0, 15, "recovery_target")) ex[k.first] = k.second;
    if (type != "none") {
        ex.erase("restore_command");
        if (type == "immediate") { ex["recovery_target"] = "immediate"; ex["recovery_target_timeline"] = "current"; }
        if (targeted) ex["recovery_target_" + type] = o.target;
        if (excl) ex["recovery_target_inclusive"] = "false";
        if (!action.empty() && action != "pause") ex["recovery_target_action"] = action;
        if (!tline.empty()) ex["recovery_target_timeline"] = tline;
        if (!ro.empty()) { std::string k = ro.substr(0, ro.find('=')); std::replace(k.begin(), k.end(), '-', '_'); ex[k] = ro.substr(ro.find('=') + 1); }
        if (archOff) ex["archive_mode"] = "off";
        if (!st.count("restore_command") || st["restore_command"].find("archive-get") == std::string::npos) { bad("no restore_command"); return true; }
        st.erase("restore_command");
    }
    if (type == "none") { ex.erase("archive_mode"); st.erase("archive_mode"); }
    for (auto &k : ex) if (!st.count(k.first)) { bad("setting " + k.first + " = '" + k.second + "' is missing"); return true; } else if (st[k.first] != k.second) { bad("setting " + k.first + " is '" + st[k.first] + "' instead of '" + k.second + "'"); return true; }
    for (auto &k : st) if (!ex.count(k.first)) { bad("setting " + k.first + " = '" + k.second + "' should not be active"); return true; }
    bool wantSig = type != "none" && type != "standby", wantS = type == "standby";
    if (sig != wantSig || ssig != wantS) { run.fail("settings", what + fmt(": recovery.signal=%d standby.signal=%d", sig, ssig)); return true; }
    // recovery with these settings reaches the target
    bool forked = run.vars.count("fork");
    if (type == "none" || type == "standby" || forked || fault || gp != g) { fsRemoveTree(run.hp, o.dir); fsRemoveTree(run.hp, o.dir + "-ts"); return true; }
    uint64_t stop = 0; if (type == "lsn") stop = tl; if (type == "time") for (auto &q : g->recs) if (q.time <= tt) stop = std::max(stop, q.end);
    if (stop && byLabel && stop < gm->stopLsn) { run.probe("sel-target-before-set"); return true; }
    if (stop && stop < gm->stopLsn) { run.fail("target-unreachable", what + fmt(": target is at %s but selected backup %s is consistent only at %s", lsnStr(stop).c_str(), got.label.c_str(), lsnStr(gm->stopLsn).c_str())); return true; }
    if (type == "immediate") stop = gm->stopLsn;
    if (type == "lsn" || stop) {
        Run::Recov rv; std::string e = run.recover(o.dir, rv, true, stop, gm); if (!e.empty()) { run.fail("pitr", what + ": " + e); return true; }
        uint64_t must = 0; for (auto &q : g->recs) if (q.end <= stop && g->acked.count(g->segName(q.lsn))) must = std::max(must, q.end);
        if (rv.reached < must && gm->startLsn < must && g->tli == 1) { run.fail("pitr", what + fmt(": recovery reached %s, target needs %s", lsnStr(rv.reached).c_str(), lsnStr(must).c_str())); return true; }
        run.probe("pitr-recovered"); run.waitGetAsync();
    }
    fsRemoveTree(run.hp, o.dir); fsRemoveTree(run.hp, o.dir + "-ts");
    return true;
}

GEN(C25)
{
    swarm(p, r, {.small = true}); (void)th; if (p.s("compress") == "bz2") p.cfg["compress"] = "lz4"; p.cfg["maxpages"] = "6"; p.cfg["rels"] = "3";
    if (r.chance(0.5)) { p.cfg["repos"] = S(r.range(2, 3)); if (p.n("remote")) p.cfg["remote"] = S((1 << p.n("repos")) - 1); if (p.n("cipher")) p.cfg["cipher"] = S(r.below(1u << p.n("repos"))); }
    if (r.chance(0.4)) p.cfg["tz"] = pick(r, {"EST5EDT,M3.2.0,M11.1.0", "IST-5:30", "NST3:30"});
    int repos = (int)p.n("repos"), n = (int)r.range(2, 5);
    p.ops.push_back(O("stanza-create")); if (r.chance(0.7)) p.ops.push_back(O("autoconf", {{"xseed", S((int64_t)r.below(1000000))}}));
    int up = r.chance(0.2) ? (int)r.range(1, n - 1) : -1, tl = r.chance(0.25) ? (int)r.range(1, n - 1) : -1;
    for (int k = 0; k < n; k++) {
        p.ops.push_back(O("activity", {{"ms", S(r.range(5, 150))}}));
        if (r.chance(0.3)) p.ops.push_back(O("sleep", {{"ms", S(r.range(500, 5000))}}));
        if (k == up) p.ops.push_back(O("upgrade", {{"same", S(r.below(2))}}));
        if (k == tl && up < 0) p.ops.push_back(O("tli"));
        if (k == up && r.chance(0.3)) continue;
        p.ops.push_back(O("backup", {{"type", k == 0 || k == up ? "full" : rtype(r)}, {"repo", S(r.range(1, repos))}}));
    }
    p.ops.push_back(O("activity", {{"ms", S(r.range(5, 150))}}));
    if (up < 0 && r.chance(0.35)) { p.ops.push_back(O("drain")); p.ops.push_back(O("fork", {{"xseed", S((int64_t)r.below(1000000))}})); }
    auto pi = [&] { return O("pitr", {{"kind", pick(r, {"time", "time", "time", "lsn", "lsn", "lsn", "default", "default", "immediate", "name", "xid", "standby", "none", "preserve"})}, {"xseed", S((int64_t)r.below(1000000))}}); };
    int q = (int)r.range(2, 5); for (int k = 0; k < q - 1; k++) p.ops.push_back(pi());
    addTarget(p, pi());
    p.variants = 10; p.faultMix = r.chance(0.7) ? "@resched,lag,@xseed" : "@resched,kill,errno,stall,@xseed";
}
}
