// C22: page checksums
#include "prop_more.h"
#include <algorithm>
#include <cstring>

namespace sim {

static uint32_t segBase(const std::string &rel) { size_t d = rel.rfind('.'), s = rel.rfind('/'); return d == std::string::npos || d < s ? 0 : (uint32_t)atoi(rel.c_str() + d + 1) * 131072u; }

struct Bad { std::set<uint32_t> pages; bool misaligned = false; };
// What is wrong with the frozen relations as they are on disk, by the definition of PostgreSQL (not by the record of what was planted)
static std::map<std::string, Bad> badNow(Pg *g)
{
    std::map<std::string, Bad> m;
    if (!g->checksum) return m;
    for (auto &rel : g->frozen) {
        Inode *i = fsLookup(g->h, g->relPathOnDisk(rel)); if (!i) continue;
        const std::string &d = *i->data; Bad b; b.misaligned = d.size() % PAGE != 0;
        for (size_t k = 0; (k + 1) * PAGE <= d.size(); k++) {
            std::string pg = d.substr(k * PAGE, PAGE); if (pg.find_first_not_of('\0') == std::string::npos) continue;
            uint16_t have, upper; memcpy(&have, &pg[8], 2); memcpy(&upper, &pg[14], 2);
            if (upper == 0 || have != pageChecksum(pg, segBase(rel) + (uint32_t)k)) b.pages.insert(segBase(rel) + (uint32_t)k);
        }
        if (b.misaligned || !b.pages.empty()) m[rel] = b;
    }
    return m;
}

static std::set<uint32_t> pageList(const std::string &s)
{
    std::set<uint32_t> r; size_t i = 0;
    while (i < s.size()) { char *e; unsigned long a = strtoul(s.c_str() + i, &e, 10), b = a; if (e == s.c_str() + i) break; if (*e == '-') b = strtoul(e + 1, &e, 10); for (unsigned long k = a; k <= b && k < a + 4096; k++) r.insert((uint32_t)k); i = (size_t)(e - s.c_str()); while (i < s.size() && (s[i] == ',' || s[i] == ' ')) i++; }
    return r;
}
static std::string show(const std::set<uint32_t> &s) { std::string t; for (auto k : s) t += (t.empty() ? "" : ",") + S(k); return t; }

bool pageOp(Run &run, int i, const Op &op)
{
    Pg *g = run.pg; Rng x((uint64_t)op.n("xseed") + 41);
    if (op.name == "mkfrozen") {
        g->tearMax = 800000;
        W->onRead = [g](Inode *n, uint64_t off, size_t len) { if (g->running) g->tearRead(n, off, len); };
        std::vector<std::string> names = {"base/16384/17001", "base/16384/17001.1", "base/16384/17001_fsm", "global/17003", "base/1/17004.2", "base/16384/17005_vm"};
        if (!g->tblspc.empty()) for (auto &kv : g->rels) if (kv.first.compare(0, 9, "pg_tblspc") == 0) { names.push_back(kv.first.substr(0, kv.first.rfind('/')) + "/17006"); break; }
        for (auto &nm : names) if (x.chance(0.6)) { g->createRel(nm, (uint32_t)x.range(1, x.chance(0.3) ? 60 : 8)); g->frozen.insert(nm); }
        if (g->frozen.empty()) { g->createRel(names[0], 4); g->frozen.insert(names[0]); }
        g->flushAll(); g->checkpoint(); syncHost(run.hp);
        return true;
    }
    if (op.name == "plant") {
        std::vector<std::string> v(g->frozen.begin(), g->frozen.end()); if (v.empty()) return true;
        for (int n = 0; n < op.n("n", 1); n++) {
            std::string rel = v[x.below(v.size())]; Inode *f = fsLookup(run.hp, g->relPathOnDisk(rel)); if (!f || f->data->size() < PAGE) continue;
            uint32_t pages = (uint32_t)(f->data->size() / PAGE), blk = (uint32_t)x.below(pages); uint64_t off = (uint64_t)blk * PAGE; int run_ = x.chance(0.25) ? (int)x.range(2, 5) : 1;
            int kind = (int)x.below(12);
            for (int q = 0; q < run_ && blk + (uint32_t)q < pages; q++, off += PAGE) {
                std::string pg = f->data->substr(off, PAGE);
                if (kind < 4) { size_t at = x.below(PAGE); fsPatch(run.hp, f, off + at, std::string(1, (char)(pg[at] ^ (1 << x.below(8))))); }
                else if (kind < 5) fsPatch(run.hp, f, off + 8, std::string(1, (char)(pg[8] + 1)));
                else if (kind < 6) {                                        // looks like a new page but is not empty, with or without a matching checksum
                    pg[14] = pg[15] = 0; if (x.chance(0.5)) { uint16_t c = pageChecksum(pg, segBase(rel) + blk + (uint32_t)q); memcpy(&pg[8], &c, 2); } fsPatch(run.hp, f, off, pg); }
                else if (kind < 8 && pages > 1) { uint32_t o2 = (uint32_t)x.below(pages); fsPatch(run.hp, f, off, f->data->substr((uint64_t)o2 * PAGE, PAGE)); }   // misdirected write
                else if (kind < 9) fsPatch(run.hp, f, off, std::string(PAGE, '\0'));                                  // lost page: all zero is valid
                else if (kind < 10) { size_t cut = 512 * x.range(1, 15); fsPatch(run.hp, f, off + cut, std::string(PAGE - cut, (char)x.below(256))); }
                else { std::string z; for (size_t k = 0; k < PAGE; k += 8) { uint64_t r = x.next(); z.append((const char *)&r, 8); } fsPatch(run.hp, f, off, z); }
            }
            if (kind == 11 && x.chance(0.3)) fsPatch(run.hp, f, f->data->size(), std::string((size_t)x.range(1, PAGE - 1), 'x'));
            fsTouch(run.hp, f);
        }
        run.probe("planted"); return true;
    }
    if (op.name == "repair") {
        for (auto &rel : g->frozen) if (x.chance(0.5)) { Inode *f = fsLookup(run.hp, g->relPathOnDisk(rel)); if (!f) continue; std::string d; auto &v = g->rels[rel]; for (uint32_t k = 0; k < v.size(); k++) d += g->pageOf(rel, k, v[k]); if (d == *f->data) continue; f->data = std::make_shared<std::string>(d); fsTouch(run.hp, f); }
        return true;
    }
    if (op.name == "pgbackup") {
        int repo = (int)op.n("repo", 1); std::map<std::string, Bad> bad = badNow(g); std::string ty = op.s("type", "full"); int f0 = run.faultsFired();
        RepoInfo b0 = run.info(repo); bool asFull = ty == "full" || b0.backups.empty();
        g->startActivity(); CmdRes r = run.backup(ty, repo, extraArgs(op)); g->stopActivity(); run.last = r;
        bool faulty = run.faultsFired() > f0 || run.vars.count("partial"), off = op.s("args").find("--no-checksum-page") != std::string::npos; if (off) bad.clear();
        std::string all = r.all(); auto hashOf = [&](const std::string &rel) { std::string d; fsRead(run.hp, g->relPathOnDisk(rel), d); return fmt("%016llx;", (unsigned long long)hashStr(d)); };
        std::map<std::string, Bad> warn; size_t pos = 0; 
        while (pos < all.size()) {
            size_t e = all.find('\n', pos); if (e == std::string::npos) e = all.size(); std::string l = all.substr(pos, e - pos); pos = e + 1;
            size_t a = l.find("invalid page checksum"), m = l.find("page misalignment in file "); if (a == std::string::npos && m == std::string::npos) continue;
            std::string file, rel; Bad w;
            if (a != std::string::npos) { size_t q = l.find("found in file ", a) + 14, z = l.find(" at page", q); file = l.substr(q, z - q); size_t n = l.find_first_of("0123456789", z); w.pages = pageList(n == std::string::npos ? "" : l.substr(n)); }
            else { size_t q = m + 26, z = l.find(": file size", q); file = l.substr(q, z - q); w.misaligned = true; }
            for (auto &fr : g->frozen) { std::string full = g->relPathOnDisk(fr); if (file.size() >= full.size() && file.compare(file.size() - full.size(), full.size(), full) == 0) rel = fr; }
            if (rel.empty() || !bad.count(rel)) { run.fail("false-alarm", "backup reports page checksum errors in a file without any: " + l); return true; }
            if (bad[rel].misaligned ? !w.misaligned : w.pages != bad[rel].pages) { run.fail("wrong-pages", "backup reports pages " + show(w.pages) + " of " + rel + " but pages " + show(bad[rel].pages) + (bad[rel].misaligned ? " and the size" : "") + " are invalid"); return true; }
            warn[rel] = w; run.probe("warned");
        }
        if (!r.ok()) { run.vars["partial"] = "1"; if (run.faultsFired() == f0) run.fail("backup", fmt("backup failed rc=%d: ", r.rc) + r.why()); return true; }
        std::string label = run.vars["label"]; run.vars.erase("partial");
        if (!faulty && !off) for (auto &b : bad) if ((asFull || run.vars["seen:" + S(repo) + b.first].find(hashOf(b.first)) == std::string::npos) && !warn.count(b.first)) { run.fail("not-warned", "backup copied " + b.first + " with invalid pages " + show(b.second.pages) + " and gave no warning"); return true; }
        for (auto &fr : g->frozen) run.vars["seen:" + S(repo) + fr] += hashOf(fr);
        // what is recorded in the backup
        CmdRes q = run.quiet(run.repoHost(repo), {"--stanza=demo", "info", "--repo=" + S(repo), "--set=" + label, "--output=json"});
        Json j; if (!q.ok() || !Json::parse(q.out, j) || j.arr.empty()) { run.fail("info", fmt("info --set failed rc=%d: ", q.rc) + q.why()); return true; }
        const Json *bk = j.arr[0].get("backup"); if (!bk || bk->arr.empty()) { run.fail("info", "info --set does not show the backup: " + q.out.substr(0, 400)); return true; }
        const Json *el = bk->arr[0].get("error-list"), *er = bk->arr[0].get("error"); std::set<std::string> have, want; if (el) for (auto &z : el->arr) have.insert(z.str);
        for (auto &b : bad) want.insert(b.first);
        std::string hs, ws; for (auto &z : have) hs += " " + z; for (auto &z : want) ws += " " + z;
        if (off) { if (!have.empty()) run.fail("error-list", "backup " + label + " without page checksums lists errors in" + hs); }
        else if (have != want) { run.fail("error-list", "backup " + label + " records page checksum errors in {" + hs + " } but the files with errors are {" + ws + " }"); return true; }
        if (er && er->b != !have.empty()) { run.fail("error-flag", "error flag of backup " + label + " does not match its list of errors"); return true; }
        RepoInfo ri = run.info(repo); for (auto &b : ri.backups) if (b.label == label && !off && b.error != !want.empty()) { run.fail("error-flag", "info shows backup " + label + (b.error ? " with" : " without") + " errors"); return true; }
        run.probe("errors-recorded", (int64_t)want.size()); run.probe("page-backup-ok");
        // the backup still holds the files as they are
        if (x.chance(0.35)) {
            Run::RestoreOpt o; o.repo = repo; o.label = label; run.waitArchiver(); CmdRes rr = run.restore(o); if (!rr.ok()) { run.fail("restore", fmt("restore failed rc=%d: ", rr.rc) + rr.why()); return true; }
            for (auto &fr : g->frozen) { std::string a, b; fsRead(run.hp, g->relPathOnDisk(fr), a); fsRead(run.hp, o.dir + "/" + fr, b); if (a != b) { run.fail("altered", "file " + fr + " (" + S((int64_t)a.size()) + " bytes) is not restored as it was backed up (" + S((int64_t)b.size()) + " bytes)"); return true; } }
            fsRemoveTree(run.hp, o.dir); fsRemoveTree(run.hp, o.dir + "-ts"); run.waitGetAsync();
        }
        return true;
    }
    return false;
}

GEN(C22)
{
    swarm(p, r, {}); (void)th; if (r.chance(0.7)) p.cfg["checksums"] = "1"; p.cfg["torn"] = r.chance(0.8) ? "1" : "0"; p.cfg["rels"] = S(r.range(2, 6));
    int repos = (int)p.n("repos"); std::string off = r.chance(0.05) ? " --no-checksum-page" : "";
    auto X = [&] { return S((int64_t)r.below(1000000)); };
    p.ops.push_back(O("stanza-create")); p.ops.push_back(O("mkfrozen", {{"xseed", X()}})); p.ops.push_back(O("activity", {{"ms", S(r.range(5, 80))}}));
    int n = (int)r.range(1, 4), tgt = (int)r.below((uint64_t)n);
    for (int k = 0; k < n; k++) {
        if (r.chance(0.75)) p.ops.push_back(O("plant", {{"xseed", X()}, {"n", S(r.range(1, 5))}})); else if (k && r.chance(0.6)) p.ops.push_back(O("repair", {{"xseed", X()}}));
        if (r.chance(0.3)) p.ops.push_back(O("activity", {{"ms", S(r.range(5, 60))}}));
        Op o = O("pgbackup", {{"type", k == 0 ? "full" : rtype(r)}, {"repo", S(r.range(1, repos))}, {"xseed", X()}, {"args", (p.n("checksums") ? off : std::string()) + (r.chance(0.2) ? " --delta" : "")}});
        if (k == tgt) { addTarget(p, o); p.ops.push_back(O("heal")); p.ops.push_back(o); } else p.ops.push_back(o);
    }
    p.variants = 6; p.faultMix = r.chance(0.5) ? "@resched,@xseed,lag" : "@resched,@xseed,kill,killtree,errno,term,stall"; if (p.n("remote")) p.faultMix += ",break";
}
}
