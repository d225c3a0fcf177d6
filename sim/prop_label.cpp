// C21: backup labels - unique, ordered and of the right set, whatever the clocks do
#include "props.h"
#include "prop_more.h"
#include <algorithm>

namespace sim {

static bool digits(const std::string &s, size_t a, size_t n) { if (a + n > s.size()) return false; for (size_t i = a; i < a + n; i++) if (!isdigit((unsigned char)s[i])) return false; return true; }
static bool stamp(const std::string &s, size_t a) { return digits(s, a, 8) && s.size() > a + 8 && s[a + 8] == '-' && digits(s, a + 9, 6); }
static bool labelShape(const std::string &s) { return (s.size() == 16 && stamp(s, 0) && s[15] == 'F') || (s.size() == 33 && stamp(s, 0) && s[15] == 'F' && s[16] == '_' && stamp(s, 17) && (s[32] == 'D' || s[32] == 'I')); }
static int64_t stampSec(const std::string &s) { struct tm t = {}; size_t a = s.size() == 16 ? 0 : 17; t.tm_year = atoi(s.substr(a, 4).c_str()) - 1900; t.tm_mon = atoi(s.substr(a + 4, 2).c_str()) - 1; t.tm_mday = atoi(s.substr(a + 6, 2).c_str()); t.tm_hour = atoi(s.substr(a + 9, 2).c_str()); t.tm_min = atoi(s.substr(a + 11, 2).c_str()); t.tm_sec = atoi(s.substr(a + 13, 2).c_str()); return timegm(&t); }

struct Labels { std::set<std::string> dirs, done, hist; std::string resumable; std::set<std::string> all() const { std::set<std::string> v = dirs; v.insert(hist.begin(), hist.end()); return v; } };
static Labels labels(Run &run, int repo)
{
    Labels l; Host *h = run.repoHost(repo); std::string b = run.repoPath(repo) + "/backup/demo", newest;
    for (auto &n : fsList(h, b)) if (labelShape(n)) { l.dirs.insert(n); if (fsExists(h, b + "/" + n + "/backup.manifest")) l.done.insert(n); newest = std::max(newest, n); }
    if (!newest.empty() && !l.done.count(newest)) l.resumable = newest;
    fsWalk(h, b + "/backup.history", [&](const std::string &p, Inode *n) { std::string f = p.substr(p.rfind('/') + 1), x = f.substr(0, f.find(".manifest")); if (n->type == TFile && f.find(".pgbackrest.tmp") == std::string::npos && labelShape(x)) l.hist.insert(x); });
    return l;
}

bool labelOp(Run &run, int i, const Op &op)
{
    if (op.name == "lblclock") {                                    // the clocks of all hosts (or of one) move
        int64_t ms = op.n("ms"); std::string w = op.s("host");
        if (w != "repo" || !run.hr) run.hp->clockOff += ms * 1000;
        if (w != "pg" && run.hr) run.hr->clockOff += ms * 1000;
        return true;
    }
    if (op.name == "lblexpire") {                                   // remove one backup (not the last full), so that its label only remains in the history
        int repo = (int)op.n("repo", 1); Rng x((uint64_t)op.n("xseed") + 5);
        run.pg->stopActivity(); run.drainWal(); run.waitArchiver();
        RepoInfo ri = run.info(repo); if (!ri.ok || ri.backups.empty()) return true;
        std::vector<std::string> c; for (auto &b : ri.backups) c.push_back(b.label);
        std::string l = op.s("sel") == "last" ? c.back() : op.s("sel") == "diff" ? "" : c[x.below(c.size())];
        if (l.empty()) { for (auto &y : c) if (y.size() > 16) l = y; if (l.empty()) return true; }
        CmdRes r = run.cmd(run.repoHost(repo), {"--stanza=demo", "expire", "--repo=" + S(repo), "--set=" + l}, "/", i);
        run.probe(r.ok() ? "lbl-expire" : "lbl-expire-refused");
        for (int q = 1; q <= run.repos; q++) { std::set<std::string> have; RepoInfo n = run.info(q); for (auto &b : n.backups) have.insert(b.label); std::set<std::string> k; for (auto &y : run.completed[q]) if (have.count(y)) k.insert(y); run.completed[q] = k; }
        return true;
    }
    if (op.name == "lblbackup") {
        int repo = (int)op.n("repo", 1); Host *h = run.repoHost(repo);
        Labels d0 = labels(run, repo); RepoInfo r0 = run.info(repo);
        if (!r0.ok) { run.fail("info", "info failed: " + r0.raw.substr(0, 500)); return true; }
        std::set<std::string> was; for (auto &b : r0.backups) was.insert(b.label);
        if (op.n("act", 1)) run.pg->startActivity();
        int f0 = run.faultsFired(); int64_t pg0 = wallSec(run.hp);
        std::vector<std::string> a = {"--stanza=demo", "backup", "--repo=" + S(repo), "--type=" + op.s("type")}; for (auto &x : extraArgs(op)) a.push_back(x);
        CmdRes r = run.cmd(h, a, "/", i); run.pg->stopActivity();
        bool fault = run.faultsFired() > f0; int64_t pg1 = wallSec(run.hp);
        bool ctl = r.all().find("pg_control must be present in all online backups") != std::string::npos, clk = ctl || r.all().find("is not later than latest backup label") != std::string::npos;
        bool fon = W->faultsOn; run.noFaults(); run.drainWal(); run.waitArchiver(); W->faultsOn = fon;
        Labels d1 = labels(run, repo); RepoInfo r1 = run.info(repo);
        if (!r1.ok) { run.fail("info", "info failed after backup: " + r1.raw.substr(0, 500)); return true; }
        std::set<std::string> all0 = d0.all(); std::vector<BkInfo> fresh; for (auto &b : r1.backups) if (!was.count(b.label)) fresh.push_back(b);
        // new labels: newly listed, or a directory or history entry that was not there
        std::set<std::string> nl; for (auto &b : fresh) if (!d0.done.count(b.label)) nl.insert(b.label);     // a complete backup that was not listed yet is only listed now
        for (auto &l : d1.all()) if (!all0.count(l)) nl.insert(l);
        if (r.ok() && nl.size() != 1) { run.fail("label-count", fmt("backup succeeded and produced %zu new labels", nl.size())); return true; }
        if (nl.size() > 1) { run.fail("label-count", fmt("one backup produced %zu labels", nl.size())); return true; }
        for (auto &l : nl) {
            bool full = l.size() == 16; std::set<std::string> others = all0; others.erase(d0.resumable);
            if (d0.done.count(l) || d0.hist.count(l)) { run.fail("label-reused", "label " + l + " of an earlier backup was used again"); return true; }
            bool resumed = l == d0.resumable && full; if (resumed) run.probe("lbl-resumed");
            if (full) { for (auto &o : others) if (o >= l) { run.fail("label-order", "label " + l + " of a new full backup is not later than " + o + " in the same repository"); return true; } }
            else {
                std::string set = l.substr(0, 16); bool have = false;
                for (auto &b : r0.backups) have |= b.label == set; for (auto &b : r1.backups) have |= b.label == set;
                if (!have) { run.fail("label-set", "label " + l + " belongs to a full backup that does not exist"); return true; }
                for (auto &o : others) if (o.size() > 16 && o.substr(0, 16) == set && o >= l) { run.fail("label-order", "label " + l + " is not later than " + o + " of the same full backup set"); return true; }
            }
            for (auto &b : fresh) if (b.label == l) {
                char t = l.back(); const char *ty = t == 'F' ? "full" : t == 'D' ? "diff" : "incr";
                if (b.type != ty) { run.fail("label-type", "backup " + l + " has type " + b.type); return true; }
                if (full ? !b.prior.empty() : (b.prior.substr(0, 16) != l.substr(0, 16) || !(t == 'D' ? b.prior.size() == 16 : true))) { run.fail("label-prior", "backup " + l + " depends on " + (b.prior.empty() ? "nothing" : b.prior)); return true; }
                for (auto &x : b.ref) if (x.substr(0, 16) != l.substr(0, 16)) { run.fail("label-prior", "backup " + l + " references " + x + " of another set"); return true; }
                // the time in the label is the time of the backup
                if (!fault && !resumed && (stampSec(l) < pg0 - 1 || stampSec(l) > pg1 + 2)) { run.fail("label-time", fmt("label %s does not show the time of the backup (between %lld and %lld)", l.c_str(), (long long)pg0, (long long)pg1)); return true; }
            }
            run.probe(r.ok() ? (full ? "lbl-full" : "lbl-dep") : "lbl-failed-new");
        }
        for (auto &l : d0.done) if (was.count(l) && !d1.done.count(l)) { run.fail("label-lost", "backup " + l + " disappeared while another backup was made"); return true; }
        if (r.ok()) for (auto &b : fresh) { run.completed[repo].insert(b.label); }
        if (!r.ok()) {
            if (clk) {                                              // refused: only because the clock is not beyond a label in use
                run.probe("lbl-clock-refused"); std::string mx; for (auto &o : all0) if (mx.empty() || stampSec(o) > stampSec(mx)) mx = o;
                if (!fault && (mx.empty() || stampSec(mx) + (ctl ? 2 : 0) < pg0 + (ctl ? 0 : 1))) { run.fail("label-refused", fmt("backup refused with a clock error although the clock (%lld) is beyond every label (latest %s): ", (long long)pg0, mx.c_str()) + r.why()); return true; }
            } else if (!fault) { run.fail("backup", fmt("backup failed rc=%d with no fault: ", r.rc) + r.why()); return true; }
        }
        run.vars["label"] = r.ok() && nl.size() == 1 ? *nl.begin() : "";
        return true;
    }
    return false;
}

GEN(C21)
{
    swarm(p, r, {.small = true}); (void)th; if (p.s("compress") == "bz2") p.cfg["compress"] = "lz4"; p.cfg["maxpages"] = "4"; p.cfg["rels"] = "3"; p.cfg["meta"] = "1"; p.cfg["qdelay"] = pick(r, {"500", "2000", "50000", "1000000"});
    int repos = (int)p.n("repos"); std::string rp = S(r.range(1, repos));
    p.ops.push_back(O("stanza-create"));
    auto bk = [&](const std::string &t) { Op o = O("lblbackup", {{"type", t}, {"repo", r.chance(0.85) ? rp : S(r.range(1, repos))}, {"act", S(r.below(2))}}); return o; };
    auto jump = [&] { return O("lblclock", {{"ms", pick(r, {"-1000", "-2500", "-400", "700", "-7200000", "7200000", "-86400000", "86400000", "34560000000", "-34560000000"})}, {"host", pick(r, {"", "", "pg", "repo"})}}); };
    int kind = (int)r.below(4);
    if (kind == 0) {                                                // over a new year and back
        p.ops.push_back(bk("full")); p.ops.push_back(bk(pick(r, {"diff", "incr"})));
        p.ops.push_back(O("lblclock", {{"ms", "34560000000"}})); p.ops.push_back(bk(pick(r, {"full", "full", "diff"})));
        if (r.chance(0.8)) p.ops.push_back(O("lblexpire", {{"repo", rp}, {"sel", "last"}}));
        if (r.chance(0.8)) p.ops.push_back(O("lblexpire", {{"repo", rp}, {"sel", "diff"}}));
        p.ops.push_back(O("lblclock", {{"ms", pick(r, {"-34560000000", "-34560030000", "-34567200000", "-86400000"})}}));
        addTarget(p, bk(rtype(r))); p.ops.push_back(O("heal")); p.ops.push_back(bk(rtype(r)));
    } else {
        p.ops.push_back(bk("full")); int n = (int)r.range(2, 6), tgt = (int)r.below((uint64_t)n);
        for (int k = 0; k < n; k++) {
            if (r.chance(0.3)) p.ops.push_back(O("activity", {{"ms", S(r.range(5, 100))}}));
            if (kind == 1) p.ops.push_back(O("lblclock", {{"ms", pick(r, {"-700", "-1000", "-1300", "-2000", "-2500", "-400"})}})); else if (kind != 3 && r.chance(0.45)) p.ops.push_back(jump());
            if (r.chance(0.25)) p.ops.push_back(O("lblexpire", {{"repo", rp}, {"xseed", S((int64_t)r.below(100000))}, {"sel", pick(r, {"", "last", "diff"})}}));
            Op o = bk(rtype(r)); if (k == tgt) { addTarget(p, o); p.ops.push_back(O("heal")); if (r.chance(0.2)) p.ops.push_back(O("crash", {{"vseed", S((int64_t)r.below(100000))}, {"which", S(r.range(1, 3))}})); } else p.ops.push_back(o);
        }
    }
    if (r.chance(0.3)) { p.cfg["delta"] = "y"; p.ops.push_back(O("checkall")); }   // size and time stamp cannot tell a change when the clock goes back
    p.variants = 8; p.faultMix = r.chance(0.3) ? "@resched,lag" : "@resched,kill,killtree,errno,power,clock,clock,term,full";
}
}
