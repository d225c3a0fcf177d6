// C17 (encrypted repository)
#include "prop_more.h"
#include <algorithm>
#include <cstring>

namespace sim {

static bool enc(Run &run, int r) { return run.n("cipher") & (1 << (r - 1)); }

// No file of an encrypted repository shows anything of what is stored in it
static std::string scanRepo(Run &run, int r, std::map<std::string, std::string> &salts)
{
    static const std::vector<std::string> marks = {"PLAINTEXT-", "backrest-", "SECRETPASS", "pg_data", "base/16384", "db-system-id", "MAXALIGN", "START WAL LOCATION", "no recovery target specified", "shared_buffers", "extra-", "cipher-pass"};
    std::string bad; int files = 0; bool torn = W->stats.faults[FK_POWER];   // a power loss leaves zeros and partial files of its own
    fsWalk(run.repoHost(r), run.repoPath(r), [&](const std::string &p, Inode *n) {
        if (n->type != TFile || !bad.empty() || n->data->empty()) return;
        const std::string &d = *n->data; files++;
        for (auto &m : marks) if (d.find(m) != std::string::npos) { bad = p + " contains '" + m + "' in clear"; return; }
        static const std::vector<std::string> magic = {std::string("\x04\x22\x4d\x18", 4), std::string("\x28\xb5\x2f\xfd", 4), std::string("\x1f\x8b\x08", 3), "BZh"};
        bool raw = p.find("/bundle/") != std::string::npos || p.find(".pgbi") != std::string::npos;
        for (auto &m : magic) if (d.compare(0, m.size(), m) == 0) { bad = p + " is compressed but not encrypted"; return; }
        if (!raw && !torn && p.find(".pgbackrest.tmp") == std::string::npos && d.compare(0, 8, "Salted__") != 0) { bad = p + " does not have the header of an encrypted file"; return; }
        if (d.size() >= 4096 && !torn) {                                 // ciphertext has no structure: every byte value about equally often
            unsigned c[256] = {}; for (unsigned char ch : d) c[ch]++;
            double e = (double)d.size() / 256, chi = 0; for (int k = 0; k < 256; k++) chi += (c[k] - e) * (c[k] - e) / e;
            if (chi > 255 + 12 * 22.6) { bad = p + fmt(" is not random (chi square %.0f for %zu bytes)", chi, d.size()); return; }
        }
        if (d.size() >= 24 && p.find(".pgbackrest.tmp") == std::string::npos && !torn) {
            std::string salt = d.compare(0, 8, "Salted__") == 0 ? d.substr(8, 8) : d.substr(0, 8), key = fmt("%d:", r) + salt, h = fmt("%zu %016llx", d.size(), (unsigned long long)hashStr(d));
            if (!raw && d.compare(0, 8, "Salted__") != 0) return;
            auto it = salts.find(key); if (it == salts.end()) salts[key] = h + " " + p; else if (it->second.compare(0, h.size(), h) != 0) bad = p + " uses the same salt as another file with different content: " + it->second; }
    });
    run.probe("enc-files", files);
    return bad;
}

static std::map<Host *, std::string> confSave;
static void confEdit(Run &run, bool none)
{
    confSave.clear();
    for (auto h : W->hosts) {
        std::string c; if (!fsRead(h, "/etc/pgbackrest/pgbackrest.conf", c)) continue; confSave[h] = c;
        std::string o; size_t i = 0; while (i < c.size()) { size_t e = c.find('\n', i); if (e == std::string::npos) e = c.size(); std::string l = c.substr(i, e - i); i = e + 1; size_t k = l.find("SECRETPASS"); if (none && l.find("cipher-") != std::string::npos) continue; if (k != std::string::npos) l.replace(k, 10, "WRONGPHRASE"); o += l + "\n"; }
        fsWrite(h, "/etc/pgbackrest/pgbackrest.conf", o, 0, 0, 0644);
    }
}

bool secOp(Run &run, int i, const Op &op)
{
    Pg *g = run.pg; Rng x((uint64_t)op.n("xseed") + 43);
    if (op.name == "encwatch") {                                    // the passphrase never appears in arguments or output
        Run *rp = &run;
        W->onExit = [rp](Proc *p) {
            for (auto &a : p->argv) if (a.find("SECRETPASS") != std::string::npos) rp->fail("pass-argv", "passphrase in the arguments of process " + p->argv[0] + " (" + p->role + ")");
            for (auto *o : {p->capOut, p->capErr}) if (o && o->find("SECRETPASS") != std::string::npos) rp->fail("pass-output", "passphrase in the output of " + p->role);
        };
        return true;
    }
    if (op.name == "encscan") {
        std::map<std::string, std::string> salts;
        for (int r = 1; r <= run.repos; r++) if (enc(run, r)) { std::string e = scanRepo(run, r, salts); if (!e.empty()) { run.fail("clear", fmt("encrypted repo%d: ", r) + e); return true; } }
        for (auto h : W->hosts) fsWalk(h, "/", [&](const std::string &p, Inode *n) { if (n->type == TFile && p.find("/etc/pgbackrest/") == std::string::npos && n->data->find("SECRETPASS") != std::string::npos) run.fail("pass-file", "passphrase written to " + p); });
        run.probe("enc-scan");
        return true;
    }
    if (op.name == "encbackup" || op.name == "encpush") {
        int repo = (int)op.n("repo", 1);
        if (op.name == "encpush") { g->archOp = i; g->startActivity(); for (int k = 0; k < op.n("n", 3); k++) { g->writePage(g->pickRel(), 0); g->switchWal(); run.sleepFor(300000); } g->stopActivity(); run.sleepFor(3000000); g->archOp = -1; }
        else { int f0 = run.faultsFired(); g->startActivity(); CmdRes r = run.backup(op.s("type"), repo, extraArgs(op)); g->stopActivity(); if (!r.ok() && run.faultsFired() == f0) run.fail("backup", fmt("backup failed rc=%d: ", r.rc) + r.why()); run.probe(r.ok() ? "enc-backup-ok" : "enc-backup-failed"); }
        return true;
    }
    if (op.name == "encwrong") {                                    // without the passphrase nothing can be read and nothing is changed
        int all = 1; for (int r = 1; r <= run.repos; r++) if (!enc(run, r)) all = 0;
        run.drainWal(); run.waitArchiver(); g->archiverOn = false; run.waitGetAsync();
        std::map<int, std::string> before; for (int r = 1; r <= run.repos; r++) before[r] = fsHashTree(run.repoHost(r), run.repoPath(r), false);
        confEdit(run, op.n("none"));
        int repo = 1; for (int r = 1; r <= run.repos; r++) if (enc(run, r) && x.chance(0.6)) repo = r;
        std::string what; auto must = [&](const CmdRes &r, const std::string &w) { if (r.ok()) run.fail("opened", w + " succeeds with the wrong " + (op.n("none") ? "cipher type" : "passphrase") + " on encrypted " + fmt("repo%d: ", repo) + r.all().substr(0, 300)); run.probe("wrong-" + w); };
        std::string rp = "--repo=" + S(repo), st = "--stanza=demo"; std::string k = op.s("what");
        if (enc(run, repo)) {
            if (k == "info") {
                CmdRes r = run.quiet(run.repoHost(repo), {st, "info", rp, "--output=" + std::string(x.chance(0.5) ? "json" : "text")});
                for (auto &l : run.completed[repo]) if (r.all().find(l) != std::string::npos) run.fail("opened", "info shows backup " + l + " of an encrypted repository with the wrong passphrase");
                if (r.out.find("\"system-id\":") != std::string::npos) run.fail("opened", "info shows the database of an encrypted repository with the wrong passphrase");
                run.probe("wrong-info");
            }
            else if (k == "restore") { Run::RestoreOpt o; o.repo = repo; if (x.chance(0.5) && !run.completed[repo].empty()) o.label = *run.completed[repo].rbegin(); CmdRes r = run.restore(o); must(r, k); if (fsExists(run.hp, o.dir + "/global/pg_control")) run.fail("opened", "restore with the wrong passphrase leaves pg_control"); fsRemoveTree(run.hp, o.dir); fsRemoveTree(run.hp, o.dir + "-ts"); }
            else if (k == "backup") must(run.quiet(run.repoHost(repo), {st, "backup", rp, "--type=" + rtype(x)}), k);
            else if (k == "expire") must(run.quiet(run.repoHost(repo), {st, "expire", rp}), k);
            else if (k == "verify") { CmdRes r = run.quiet(run.repoHost(repo), {st, "verify", rp, "--output=text", "--verbose"}); if (r.ok() && r.out.find("status: ok") != std::string::npos) run.fail("opened", "verify reports ok with the wrong passphrase"); run.probe("wrong-verify"); }
            else if (k == "stanza") must(run.quiet(run.repoHost(1), {st, x.chance(0.5) ? "stanza-create" : "stanza-upgrade"}), k);
            else if (k == "check") must(run.quiet(run.hp, {st, "check", "--archive-timeout=2"}), k);
            else if (k == "get" && !g->acked.empty()) { fsMkdirs(run.hp, "/restore/w", 1000, 1000, 0700); std::vector<std::string> v(g->acked.begin(), g->acked.end()); CmdRes r = run.quiet(run.hp, {st, "archive-get", rp, v[x.below(v.size())], "/restore/w/X"}); must(r, k); if (fsExists(run.hp, "/restore/w/X")) run.fail("opened", "archive-get with the wrong passphrase leaves a file"); run.waitGetAsync(); }
            else if (k == "push" && all) { g->writePage(g->pickRel(), 0); std::string s = g->switchWal(); CmdRes r = run.quiet(run.hp, {st, "archive-push", "--archive-timeout=3", g->walDir() + "/" + s}, g->data); must(r, k); run.settle(100000000ll); fsRemoveTree(run.hp, "/spool/archive/demo/out"); }
        }
        for (auto &kv : confSave) fsWrite(kv.first, "/etc/pgbackrest/pgbackrest.conf", kv.second, 0, 0, 0644);
        for (int r = 1; r <= run.repos && !run.bad(); r++) if (enc(run, r) && fsHashTree(run.repoHost(r), run.repoPath(r), false) != before[r]) run.fail("changed", k + fmt(" with the wrong passphrase changed encrypted repo%d", r));
        g->archiverOn = true; g->archiverKick();
        return true;
    }
    return false;
}

GEN(C17)
{
    swarm(p, r, {}); (void)th; int repos = (int)p.n("repos"); p.cfg["cipher"] = S(r.chance(0.85) ? (1 << repos) - 1 : 1 + (int64_t)r.below((1u << repos) - 1)); p.cfg["rels"] = S(r.range(3, 6));
    p.cfg["compress"] = pick(r, {"none", "none", "none", "lz4", "zst"}); auto X = [&] { return S((int64_t)r.below(1000000)); };
    p.ops.push_back(O("encwatch")); p.ops.push_back(O("stanza-create")); p.ops.push_back(O("activity", {{"ms", S(r.range(5, 80))}}));
    int n = (int)r.range(1, 4), tgt = (int)r.below((uint64_t)n);
    for (int k = 0; k < n; k++) {
        if (r.chance(0.15)) p.ops.push_back(O("tli")); std::string rp = S(r.range(1, repos));
        std::string a; if (r.chance(0.4)) { a = backupOpts(r, rp); if (a.find("gz") != std::string::npos || a.find("bz2") != std::string::npos) a = ""; }
        Op o = k && r.chance(0.3) ? O("encpush", {{"n", S(r.range(1, 4))}}) : O("encbackup", {{"type", k == 0 ? "full" : rtype(r)}, {"repo", rp}, {"args", a}});
        if (k == tgt) { addTarget(p, o); p.ops.push_back(O("encscan")); p.ops.push_back(O("heal")); } else p.ops.push_back(o);
    }
    p.ops.push_back(O("encscan"));
    int w = (int)r.range(1, 3); for (int k = 0; k < w; k++) p.ops.push_back(O("encwrong", {{"what", pick(r, {"info", "restore", "backup", "expire", "verify", "stanza", "check", "get", "push"})}, {"none", S(r.chance(0.3))}, {"xseed", X()}}));
    if (r.chance(0.4)) { p.ops.push_back(O("expire")); p.ops.push_back(O("encscan")); }
    if (r.chance(0.4)) p.ops.push_back(O("checkall"));
    p.variants = 6; p.faultMix = "@resched,kill,killtree,errno,term,stall,power,short"; if (p.n("remote")) p.faultMix += ",break";
}
}
