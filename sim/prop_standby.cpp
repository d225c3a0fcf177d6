// C28: backup from a standby
#include "props.h"
#include "prop_more.h"
#include <algorithm>

namespace sim {

static std::set<std::string> labels(Run &run, int repo, bool &ok)
{
    RepoInfo ri = run.info(repo); ok = ri.ok; std::set<std::string> s; for (auto &b : ri.backups) s.insert(b.label); return s;
}
static void heal1(Run &run, Pg *s) { if (!s->running) { s->running = true; s->rebootCrash(); } s->lagMax = 3000; s->replayBatch = 12; s->holdCkpt = false; run.pg->gapRecs = 0; if (s->up != run.pg || s->replayStalled || s->foreign || s->tliForce || s->promoted || s->checkpointLsn > run.pg->lsn) s->follow(run.pg); s->replayKick(); }

static void sbbackup(Run &run, int i, const Op &op)
{
    Pg *g = run.pg; if (run.sb.empty() || !g->running) return;
    Rng x((uint64_t)op.n("xseed") + 2828); std::string mode = op.s("mode"), opt = op.s("opt", "y"); int repo = (int)op.n("repo", 1);
    for (auto s : run.sb) heal1(run, s);
    Pg *s = run.sb[0]; bool second = run.sb.size() > 1;
    // what is wrong with the standby
    auto alive = std::make_shared<bool>(true); usec lag = x.chance(0.5) ? 3000 : x.chance(0.5) ? 40000 : 400000;
    for (auto q : run.sb) { q->lagMax = lag; q->replayFlush = x.chance(0.7); }
    int trigger = 0; bool late = false;
    if (mode == "stall") { s->replayStalled = true; at(W->now + (usec)x.below(15000000), [s, alive] { if (*alive) { s->replayStalled = false; s->replayKick(); } }); }
    else if (mode == "slow") {                                      // longer behind than archive-timeout, but making progress
        s->replayStalled = true; int n = (int)x.range(3, 8); for (int k = 0; k < n; k++) { g->act(); Rec r; r.type = RCommit; g->addRec(r); }
        s->replayStalled = false; s->replayBatch = 1; s->lagMax = 8000000; s->replayKick();
    } else if (mode == "gap") {                                     // has replayed the start of the backup but not its checkpoint record
        for (int k = 0; k < 1000 && s->up && s->replayed < s->up->recs.size(); k++) s->replayStep();
        s->restartpoint(); s->replayFlush = false;
        for (int k = (int)x.range(2, 20); k > 0; k--) { std::string rel = g->pickRel(); if (!rel.empty()) g->writePage(rel, g->rels[rel].empty() ? 0 : (uint32_t)x.below(g->rels[rel].size())); }
        g->gapRecs = (int)x.range(1, 12); s->holdCkpt = true; s->replayFlush = false; at(W->now + (usec)x.range(300000, 20000000), [s, alive] { if (*alive) { s->holdCkpt = false; s->replayKick(); } });
    } else if (mode == "dead") s->replayStalled = true;
    else if (mode == "ahead") { s->replayStalled = true; s->replayLsn = s->lsn = g->lsn + 0x2000000; s->checkpointLsn = s->lastCkpt = s->replayLsn - 4096; s->writeControl(); }
    else if (mode == "tli") { s->tliForce = s->tli = g->tli + 1; s->writeControl(); }
    else if (mode == "foreign") {                                   // standby of another cluster that looks alike
        s->foreign = true; s->sysid = g->sysid + 12345; for (auto &kv : s->rels) for (auto &t : kv.second) if (t) t ^= 0x40; s->writeAll();
    } else if (mode == "down") s->running = false;
    else if (mode == "promote" || mode == "restart") { trigger = 1 + (int)x.below(x.chance(0.5) ? 6 : 40); late = x.chance(0.2); if (late) trigger = 0; }

    // who reads the relations
    int64_t fromP = 0, fromS = 0, allS = 0; auto old = W->onRead;
    auto hit = [s, mode] { if (mode == "promote") s->promote(); else if (s->running) { s->running = false; at(W->now + 1500000, [s] { s->running = true; s->rebootCrash(); }); } };
    if (late) at(W->now + (usec)x.below(4000000), [hit, alive] { if (*alive) { Proc *me = W->cur; W->cur = nullptr; hit(); W->cur = me; } });
    W->onRead = [&](Inode *n, uint64_t o, size_t len) {
        if (old) old(n, o, len);
        Host *h = W->cur ? W->cur->host : nullptr; if (!h) return;
        if (h == g->h) for (auto &kv : g->rels) if (fsLookup(h, g->relPathOnDisk(kv.first)) == n) { fromP++; break; }
        for (auto q : run.sb) if (h == q->h) {
            bool mine = fsLookup(h, q->data + "/global/pg_control") == n; for (auto &kv : q->rels) if (fsLookup(h, q->relPathOnDisk(kv.first)) == n) { fromS++; mine = true; break; }
            if (mine) { allS++; if (q == s && trigger && allS >= trigger) { trigger = 0; hit(); } }
        }
    };
    bool okB; std::set<std::string> before = labels(run, repo, okB);
    std::vector<std::string> a = {"--backup-standby=" + opt}; for (auto &e : extraArgs(op)) a.push_back(e);
    if (op.n("act", 1)) g->startActivity();
    int f0 = run.faultsFired(); CmdRes r = run.backup(op.s("type"), repo, a); g->stopActivity(); W->onRead = old; *alive = false; trigger = 0;
    if (run.bad()) return; bool fault = run.faultsFired() != f0; std::string label = run.vars["label"], what = "backup --backup-standby=" + opt + " (" + mode + ")";
    bool any = second || mode != "down", use = opt != "n" && any, unfit = use && (mode == "dead" || mode == "ahead" || mode == "tli" || mode == "foreign"), may = mode == "promote" || (use && mode == "gap") || (use && mode == "restart");
    if (r.ok()) {
        if (opt == "y" && !any) { run.fail("no-standby", what + " succeeded without a standby"); return; }
        if (unfit && (opt == "y" || !fault) && !second) { run.fail("unfit", what + " succeeded although the standby does not hold what the backup needs"); return; }
        if (opt == "y" && fromP) { run.fail("primary", what + fmt(": relation files were read from the primary (%lld reads)", (long long)fromP)); return; }
        if (opt == "prefer" && use && !fault && !may && fromP) { run.fail("primary", what + fmt(": relation files were read from the primary (%lld reads) although a standby was there", (long long)fromP)); return; }
        if (opt == "n" && fromS) { run.fail("standby", what + ": relation files were read from the standby"); return; }
        run.probe("sb-ok-" + mode + "-" + opt); if (fromS) run.probe("read-standby"); if (fromP) run.probe("read-primary");
        if (mode != "normal" || x.chance(0.4)) {                    // and is as good as any other
            struct FOn { bool was = W->faultsOn; ~FOn() { W->faultsOn = was; } } fon; W->faultsOn = false;
            if (!label.empty() && run.drainWal()) { std::string e = run.restoreAndCheck(label, repo, what); if (!e.empty()) { run.fail("restore", what + ": " + e); return; } run.probe("sb-restored"); }
        }
    } else {
        if (!fault && !unfit && !may && !(opt == "y" && !any)) { run.fail("refused", what + fmt(" failed rc=%d: ", r.rc) + r.why()); return; }
        if (!fault && okB) {
            bool ok; std::set<std::string> now = labels(run, repo, ok);
            if (!ok) { run.fail("info", what + " failed and info fails now"); return; }
            if (now != before) { run.fail("listed", what + fmt(" failed rc=%d but the list of backups has changed", r.rc)); return; }
        }
        run.probe("sb-refused-" + mode);
    }
    for (auto q : run.sb) { q->replayFlush = true; heal1(run, q); }
}

// check looks at the standby, too
static void sbcheck(Run &run, int i, const Op &op)
{
    Pg *g = run.pg; if (run.sb.empty() || !g->running) return; std::string mode = op.s("mode");
    for (auto s : run.sb) heal1(run, s);
    Pg *s = run.sb[0]; if (mode == "foreign") { s->foreign = true; s->sysid = g->sysid + 12345; s->writeAll(); }
    int f0 = run.faultsFired(); CmdRes r = run.cmd(run.repoHost(1), {"--stanza=demo", "check"}, "/", i); bool fault = run.faultsFired() != f0; if (run.bad()) return;
    if (mode == "foreign") { if (r.ok()) { run.fail("check", "check succeeded although the standby belongs to another cluster"); return; } run.probe("check-refused"); }
    else if (!r.ok() && !fault) { run.fail("check", fmt("check with a standby failed rc=%d: ", r.rc) + r.why()); return; }
    else if (r.ok()) run.probe("check-ok");
    heal1(run, s);
    if (run.hs && run.hr) {                                         // on the standby itself
        CmdRes q = run.quiet(run.hs, {"--stanza=demo", "check"});
        if (!q.ok()) run.fail("check", fmt("check on the standby failed rc=%d: ", q.rc) + q.why()); else run.probe("check-on-standby");
    }
}

bool standbyOp(Run &run, int i, const Op &op)
{
    if (op.name == "sbbackup") { sbbackup(run, i, op); return true; }
    if (op.name == "sbcheck") { sbcheck(run, i, op); return true; }
    return false;
}

GEN(C28)
{
    (void)th; swarm(p, r, {.small = true}); auto X = [&] { return S((int64_t)r.below(1000000000)); };
    p.cfg["standby"] = S(r.range(1, 2)); if (r.chance(0.25)) p.cfg["sbs"] = "2"; if (r.chance(0.4)) p.cfg["sbswap"] = "1"; p.cfg["rels"] = S(r.range(5, 12));
    p.ops.push_back(O("stanza-create")); int n = (int)r.range(2, 5), tgt = (int)r.range(1, n - 1), repos = (int)p.n("repos", 1); bool mix = r.chance(0.25);
    if (r.chance(0.2)) p.ops.push_back(O("sbcheck", {{"mode", pick(r, {"normal", "foreign"})}}));
    for (int q = 0; q < n; q++) {
        p.ops.push_back(O("activity", {{"ms", S(r.range(5, 300))}}));
        std::string rp = S(r.range(1, repos)), ty = q == 0 ? "full" : rtype(r);
        if (q != tgt && r.chance(0.25)) { p.ops.push_back(O("backup", {{"type", ty}, {"repo", rp}})); continue; }
        Op b = O("sbbackup", {{"type", ty}, {"repo", rp}, {"xseed", X()}, {"opt", pick(r, {"y", "y", "y", "prefer", "prefer", "n"})},
            {"mode", q == n - 1 && q != tgt ? "normal" : pick(r, {"normal", "normal", "normal", "stall", "slow", "gap", "dead", "ahead", "tli", "foreign", "down", "promote", "promote", "restart"})}});
        if (mix && r.chance(0.6)) { std::string a = backupOpts(r, rp); if (!a.empty()) b.a["args"] = a; }
        if (r.chance(0.12)) b.a["args"] = b.s("args") + " --no-archive-check";
        if (q == tgt) { addTarget(p, b); p.ops.push_back(O("heal")); } else p.ops.push_back(b);
        if (q == tgt && r.chance(0.4)) {                            // resumed, should it have been interrupted
            if (r.chance(0.5)) p.ops.push_back(O("activity", {{"ms", S(r.range(1, 100))}}));
            b.a["mode"] = "normal"; b.a["xseed"] = X(); p.ops.push_back(b); p.ops.push_back(O("activity", {{"ms", S(r.range(5, 200))}}));
        }
    }
    p.ops.push_back(O("heal"));
    p.ops.push_back(O("sbbackup", {{"type", rtype(r)}, {"repo", S(r.range(1, repos))}, {"xseed", X()}, {"opt", "y"}, {"mode", "normal"}}));
    p.ops.push_back(O("checkall"));
    p.variants = 6; p.faultMix = "@resched,@xseed,@resched,lag,kill,errno,term,power"; if (r.chance(0.5)) p.faultMix = "@xseed,@resched,lag";
}
}
