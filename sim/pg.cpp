#include "pg.h"
#include <algorithm>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <libpq-fe.h>

namespace sim {

std::vector<Pg *> pgs;

static const PgVer vers[] = {
    {180000, 1800, 202506291, 0xd118, 292}, {170000, 1700, 202406281, 0xd116, 288}, {160000, 1300, 202307071, 0xd113, 288},
    {150000, 1300, 202209061, 0xd110, 288}, {140000, 1300, 202107181, 0xd10d, 288}, {130000, 1300, 202007201, 0xd106, 288},
    {120000, 1201, 201909212, 0xd101, 288}};
const PgVer &pgVer(unsigned major) { for (auto &v : vers) if (v.num == major * 10000) return v; abort(); }

uint32_t crc32c(const void *p, size_t n)
{
    static uint32_t t[256]; static bool init = false;
    if (!init) { for (uint32_t i = 0; i < 256; i++) { uint32_t c = i; for (int k = 0; k < 8; k++) c = c & 1 ? (c >> 1) ^ 0x82F63B78u : c >> 1; t[i] = c; } init = true; }
    uint32_t c = 0xFFFFFFFFu; const uint8_t *b = (const uint8_t *)p;
    while (n--) c = t[(c ^ *b++) & 0xff] ^ (c >> 8);
    return c ^ 0xFFFFFFFFu;
}

uint16_t pageChecksum(const std::string &page, uint32_t blk)
{
    static const uint32_t base[32] = {
        0x5b1f36e9, 0xb8525960, 0x02ab50aa, 0x1de66d2a, 0x79ff467a, 0x9bb9f8a3, 0x217e7cd2, 0x83e13d2c, 0xf8d4474f, 0xe39eb970, 0x42c6ae16,
        0x993216fa, 0x7b093b5d, 0x98daff3c, 0xf718902a, 0x0b1c9cdb, 0xe58f764b, 0x187636bc, 0x5d7b3bb1, 0xe73de7de, 0x92bec979, 0xcca6c0b2,
        0x304a0979, 0x85aa43d4, 0x783125bb, 0x6ca8eaa2, 0xe407eac6, 0x4b5cfc3e, 0x9fbf8c76, 0x15ca20be, 0xf2ca9fd3, 0x959bd756};
    uint32_t s[32]; memcpy(s, base, sizeof s);
    std::string p = page; p[8] = p[9] = 0;
    const uint32_t *d = (const uint32_t *)p.data();
    auto round = [](uint32_t &c, uint32_t v) { uint32_t t = c ^ v; c = t * 16777619u ^ (t >> 17); };
    for (size_t i = 0; i < p.size() / 128; i++) for (size_t j = 0; j < 32; j++) round(s[j], d[i * 32 + j]);
    for (int i = 0; i < 2; i++) for (size_t j = 0; j < 32; j++) round(s[j], 0);
    uint32_t r = 0; for (size_t j = 0; j < 32; j++) r ^= s[j];
    r ^= blk;
    return (uint16_t)(r % 65535 + 1);
}

std::string pageImage(const std::string &rel, uint32_t blk, uint64_t token, bool checksum, uint32_t segBase)
{
    std::string p(PAGE, '\0');
    if (token == 0) return p;
    uint32_t hi = (uint32_t)(token >> 32), lo = (uint32_t)token;
    memcpy(&p[0], &hi, 4); memcpy(&p[4], &lo, 4);
    uint16_t lower = 28, upper = 4096, special = 8192, psv = 8192 | 4;
    memcpy(&p[12], &lower, 2); memcpy(&p[14], &upper, 2); memcpy(&p[16], &special, 2); memcpy(&p[18], &psv, 2);
    uint64_t h = hashStr(rel, token * 0x9E3779B97F4A7C15ull + blk);
    Rng r(h);
    // a mix of repeated and random content so that every compressor has something to do
    for (size_t i = 4096; i + 8 <= PAGE; i += 8) { uint64_t v = (i & 1024) ? r.next() : h; memcpy(&p[i], &v, 8); }
    snprintf(&p[5120], 96, "PLAINTEXT-%s-%u-%016llx", rel.substr(0, 48).c_str(), blk, (unsigned long long)token);
    if (checksum) { uint16_t c = pageChecksum(p, segBase + blk); memcpy(&p[8], &c, 2); }
    return p;
}

std::string lsnStr(uint64_t l) { char b[64]; snprintf(b, sizeof b, "%X/%X", (unsigned)(l >> 32), (unsigned)l); return b; }

static uint32_t segBaseOf(const std::string &rel)
{
    size_t d = rel.rfind('.'), s = rel.rfind('/');
    if (d == std::string::npos || d < s) return 0;
    return (uint32_t)atoi(rel.c_str() + d + 1) * 131072u;
}
std::string Pg::pageOf(const std::string &rel, uint32_t blk, uint64_t token) const { return pageImage(rel, blk, token, checksum, segBaseOf(rel)); }

std::string Pg::segName(uint64_t l) const
{
    char b[64]; snprintf(b, sizeof b, "%08X%08X%08X", tli, (unsigned)(l >> 32), (unsigned)(l & 0xFFFFFFFFu) / segSize);
    return b;
}
std::string Pg::tblId() const { char b[64]; snprintf(b, sizeof b, "PG_%u_%u", major, pgVer(major).cat); return b; }
std::string Pg::relPathOnDisk(const std::string &rel) const { return data + "/" + rel; }

std::string Pg::controlBytes()
{
    std::string c(8192, '\0'); const PgVer &v = pgVer(major);
    auto u32 = [&](size_t o, uint32_t x) { memcpy(&c[o], &x, 4); };
    auto u64 = [&](size_t o, uint64_t x) { memcpy(&c[o], &x, 8); };
    u64(0, sysid); u32(8, v.ctl); u32(12, v.cat); u32(16, running ? (standby ? 5 : 6) : 1); u64(24, (uint64_t)wallSec(h)); u64(32, checkpointLsn); u64(40, checkpointLsn); u32(48, tli);
    u32(216, PAGE); u32(220, 131072); u32(224, 8192); u32(228, segSize); u32(252, checksum ? 1 : 0);
    u32(v.crcOff, crc32c(c.data(), v.crcOff));
    return c;
}
void Pg::writeControl(bool torn)
{
    std::string c = controlBytes();
    Inode *i = fsLookup(h, data + "/global/pg_control");
    if (!i) { fsWrite(h, data + "/global/pg_control", c, uid, gid, fm); return; }
    if (torn && tornPages && W->cur == nullptr) {
        fsPatch(h, i, 0, c.substr(0, 128));
        Pg *self = this;
        at(W->now + rng.range(50, 3000), [self] { Inode *n = fsLookup(self->h, self->data + "/global/pg_control"); if (n && self->running) fsPatch(self->h, n, 0, self->controlBytes()); });
    } else fsPatch(h, i, 0, c);
}

void Pg::openSeg()
{
    curSeg = segName(lsn);
    segBuf.assign(segSize, '\0');
    uint64_t start = lsn & ~(uint64_t)(segSize - 1);
    const PgVer &v = pgVer(major);
    uint16_t info = 2; memcpy(&segBuf[0], &v.magic, 2); memcpy(&segBuf[2], &info, 2); memcpy(&segBuf[4], &tli, 4); memcpy(&segBuf[8], &start, 8);
    memcpy(&segBuf[24], &sysid, 8); memcpy(&segBuf[32], &segSize, 4); uint32_t xb = 8192; memcpy(&segBuf[36], &xb, 4);
    lsn = start + 40;
    fsWrite(h, walDir() + "/" + curSeg, segBuf, uid, gid, fm);
}

void Pg::addRec(Rec r)
{
    // [magic u32][len u32][lsn u64][tli u32][time i64][type u8][blk u32][token u64][rlen u16][rel][crc u32]
    std::string b;
    auto put = [&](const void *p, size_t n) { b.append((const char *)p, n); };
    r.lsn = lsn; r.time = wallSec(h); r.tli = tli;
    if (r.type == RPage && r.token == 1) r.token = lsn;
    uint32_t magic = 0x5741C0DE, len = 0; uint16_t rl = (uint16_t)r.rel.size();
    put(&magic, 4); put(&len, 4); put(&r.lsn, 8); put(&r.tli, 4); put(&r.time, 8); put(&r.type, 1); put(&r.blk, 4); put(&r.token, 8); put(&rl, 2); put(r.rel.data(), rl);
    len = (uint32_t)b.size() + 4; memcpy(&b[4], &len, 4);
    uint32_t c = crc32c(b.data(), b.size()); put(&c, 4);
    while (b.size() % 8) b.push_back('\0');
    uint64_t segEnd = (lsn & ~(uint64_t)(segSize - 1)) + segSize;
    if (lsn + b.size() > segEnd - 64) { switchWal(); addRec(r); return; }
    size_t off = (size_t)(lsn & (segSize - 1));
    memcpy(&segBuf[off], b.data(), b.size());
    Inode *i = fsLookup(h, walDir() + "/" + curSeg);
    if (i) fsPatch(h, i, off, b);
    lsn += b.size(); r.end = lsn;
    recs.push_back(r);
    for (auto d : downs) d->replayKick();
}

bool walParse(const std::string &seg, uint64_t segStart, uint64_t sysid, unsigned segSize, std::vector<Rec> &out, std::string *err)
{
    if (seg.size() != segSize) { *err = "WAL segment size " + std::to_string(seg.size()); return false; }
    uint64_t sid, st; memcpy(&sid, &seg[24], 8); memcpy(&st, &seg[8], 8);
    if (sid != sysid || st != segStart) { *err = "WAL header mismatch"; return false; }
    size_t off = 40;
    for (;;) {
        if (off + 8 > seg.size()) break;
        uint32_t magic, len; memcpy(&magic, &seg[off], 4); memcpy(&len, &seg[off + 4], 4);
        if (magic != 0x5741C0DE) break;
        if (len > 4096 || off + len > seg.size()) { *err = "bad record length"; return false; }
        uint32_t c; memcpy(&c, &seg[off + len - 4], 4);
        if (c != crc32c(&seg[off], len - 4)) { *err = "bad record crc"; return false; }
        Rec r; size_t p = off + 8;
        memcpy(&r.lsn, &seg[p], 8); p += 8; memcpy(&r.tli, &seg[p], 4); p += 4; memcpy(&r.time, &seg[p], 8); p += 8; memcpy(&r.type, &seg[p], 1); p += 1;
        memcpy(&r.blk, &seg[p], 4); p += 4; memcpy(&r.token, &seg[p], 8); p += 8; uint16_t rl; memcpy(&rl, &seg[p], 2); p += 2; r.rel.assign(&seg[p], rl);
        if (r.lsn != segStart + off) { *err = "record out of place"; return false; }
        size_t adv = (len + 7) / 8 * 8; r.end = r.lsn + adv;
        out.push_back(r); off += adv;
    }
    return true;
}

std::string Pg::switchWal()
{
    uint64_t start = lsn & ~(uint64_t)(segSize - 1);
    if (lsn == start + 40) return curSeg;                           // nothing written: PostgreSQL does not switch
    std::string done = curSeg;
    walContent[done] = segBuf; walOrder.push_back(done);
    fsWrite(h, walDir() + "/" + done, segBuf, uid, gid, fm);
    bool skip = skipArchive && skipArchive(done);
    fsWrite(h, walDir() + "/archive_status/" + done + (skip ? ".done" : ".ready"), "", uid, gid, fm);
    noteReady();
    lsn = start + segSize;
    openSeg();
    archiverKick();
    return done;
}

void Pg::writePage(const std::string &rel, uint32_t blk)
{
    auto &v = rels[rel];
    Rec r; r.type = RPage; r.rel = rel; r.blk = blk; r.token = 1;
    addRec(r);
    uint64_t tok = recs.back().token;
    if (v.size() <= blk) v.resize(blk + 1, 0);
    v[blk] = tok;
    dirty.insert({rel, blk});
    badPages.erase({rel, blk});
}
void Pg::createRel(const std::string &rel, uint32_t pages)
{
    Rec r; r.type = RCreate; r.rel = rel; addRec(r);
    rels[rel] = {};
    size_t s = rel.rfind('/'); fsMkdirs(h, data + "/" + rel.substr(0, s), uid, gid, dm);
    fsWrite(h, relPathOnDisk(rel), "", uid, gid, fm);
    for (uint32_t i = 0; i < pages; i++) writePage(rel, i);
}
void Pg::dropRel(const std::string &rel)
{
    Rec r; r.type = RDrop; r.rel = rel; addRec(r);
    rels.erase(rel); fsUnlink(h, relPathOnDisk(rel));
    for (auto it = dirty.begin(); it != dirty.end();) if (it->first == rel) it = dirty.erase(it); else ++it;
    for (auto it = badPages.begin(); it != badPages.end();) if (it->first == rel) it = badPages.erase(it); else ++it;
}
void Pg::truncRel(const std::string &rel, uint32_t pages)
{
    if (rels[rel].size() <= pages) return;
    Rec r; r.type = RTrunc; r.rel = rel; r.blk = pages; addRec(r);
    rels[rel].resize(pages);
    for (auto it = dirty.begin(); it != dirty.end();) if (it->first == rel && it->second >= pages) it = dirty.erase(it); else ++it;
    for (auto it = badPages.begin(); it != badPages.end();) if (it->first == rel && it->second >= pages) it = badPages.erase(it); else ++it;
    Inode *i = fsLookup(h, relPathOnDisk(rel));
    if (i && i->data->size() > (size_t)pages * PAGE) { i->data = std::make_shared<std::string>(i->data->substr(0, (size_t)pages * PAGE)); i->gen++; fsTouch(h, i); }
}
void Pg::flushPage(const std::string &rel, uint32_t blk, bool torn)
{
    dirty.erase({rel, blk});
    auto it = rels.find(rel);
    if (it == rels.end() || it->second.size() <= blk) return;
    Inode *i = fsLookup(h, relPathOnDisk(rel));
    if (!i) i = fsWrite(h, relPathOnDisk(rel), "", uid, gid, fm);
    std::string img = pageOf(rel, blk, it->second[blk]);
    if (torn) {
        size_t cut = 512 * (size_t)rng.range(1, 15);
        uint64_t tok = it->second[blk];
        fsPatch(h, i, (uint64_t)blk * PAGE, img.substr(0, cut));
        if (i->data->size() % PAGE) { i->data->resize((i->data->size() / PAGE + 1) * PAGE, '\0'); }
        Pg *self = this;
        at(W->now + rng.range(20, tearMax), [self, rel, blk, tok] {
            auto k = self->rels.find(rel);
            if (k == self->rels.end() || k->second.size() <= blk || !self->running || k->second[blk] != tok) return;
            self->dirty.insert({rel, blk}); self->flushPage(rel, blk, false);
        });
        dirty.insert({rel, blk});                                   // still dirty until fully written
        tearing[i][blk] = rel;
    } else { auto t = tearing.find(i); if (t != tearing.end()) t->second.erase(blk); fsPatch(h, i, (uint64_t)blk * PAGE, img); }
}
void Pg::tearRead(Inode *i, uint64_t off, size_t n)
{
    auto t = tearing.find(i); if (t == tearing.end() || t->second.empty()) return;
    std::vector<std::pair<uint32_t, std::string>> v; for (auto &b : t->second) if ((uint64_t)b.first * PAGE < off + n && (uint64_t)(b.first + 1) * PAGE > off) v.push_back(b);
    for (auto &b : v) { tearing[i].erase(b.first); if (fsLookup(h, relPathOnDisk(b.second)) == i) flushPage(b.second, b.first, false); }
}
void Pg::flushAll()
{
    std::vector<std::pair<std::string, uint32_t>> v(dirty.begin(), dirty.end());
    for (auto &p : v) flushPage(p.first, p.second, false);
    for (auto &kv : rels) {                                         // extend files whose tail pages are still zero
        Inode *i = fsLookup(h, relPathOnDisk(kv.first));
        if (i && i->data->size() < kv.second.size() * PAGE) fsPatch(h, i, kv.second.size() * PAGE - 1, std::string(1, '\0'));
    }
}
void Pg::checkpoint()
{
    uint64_t redo = lsn;
    flushAll();
    Rec r; r.type = RCheckpoint; addRec(r);
    checkpointLsn = recs.back().lsn; (void)redo;
    writeControl(true);
    // remove archived segments that precede the checkpoint
    if (!keepWal) {
        std::string cur = segName(checkpointLsn);
        for (auto &f : fsList(h, walDir()))
            if (f.size() == 24 && f < cur && fsExists(h, walDir() + "/archive_status/" + f + ".done") && rng.chance(0.7)) {
                fsUnlink(h, walDir() + "/" + f); fsUnlink(h, walDir() + "/archive_status/" + f + ".done");
            }
    }
}
void Pg::setExtra(const std::string &path, const std::string &d)
{
    auto &v = extra[path];
    if (!v.empty()) v.back().to = W->now;
    v.push_back({d, W->now, INT64_MAX});
    fsWrite(h, data + "/" + path, d, uid, gid, fm);
}

void Pg::init(uint64_t seed, int nRel, int nExtra)
{
    rng.seedIt(seed ^ 0x9697);
    pgs.push_back(this);
    fsMkdirs(h, "/pg", uid, gid, 0750);
    for (auto d : {"", "/base", "/base/1", "/base/5", "/base/16384", "/global", "/pg_wal", "/pg_wal/archive_status", "/pg_xact", "/pg_tblspc", "/pg_multixact",
        "/pg_multixact/members", "/pg_multixact/offsets", "/pg_notify", "/pg_stat", "/pg_stat_tmp", "/pg_subtrans", "/pg_twophase", "/pg_logical", "/pg_replslot", "/pg_serial",
        "/pg_snapshots", "/pg_commit_ts", "/pg_dynshmem"})
        fsMkdirs(h, data + d, uid, gid, dm);
    lsn = lsn0 & ~(uint64_t)(segSize - 1); tli = 1; openSeg();
    std::string sv = std::to_string(major) + "\n";
    setExtra("PG_VERSION", sv); setExtra("base/1/PG_VERSION", sv); setExtra("base/5/PG_VERSION", sv); setExtra("base/16384/PG_VERSION", sv);
    setExtra("postgresql.conf", "# config\nport = 5432\n"); setExtra("pg_hba.conf", "local all all trust\n"); setExtra("pg_ident.conf", "");
    setExtra("global/pg_filenode.map", std::string(512, 'm')); setExtra("base/16384/pg_filenode.map", std::string(512, 'n'));
    setExtra("pg_xact/0000", std::string(8192, 'x'));
    for (int i = 0; i < nExtra; i++) {
        std::string d; size_t n = rng.chance(0.2) ? 0 : rng.chance(0.5) ? rng.below(200) : rng.below(20000);
        Rng r2(rng.next()); for (size_t k = 0; k < n; k++) d.push_back((char)('a' + (r2.next() % (rng.chance(0.5) ? 3 : 26))));
        setExtra((i % 3 == 0 ? "userdir/sub" + std::to_string(i) + "/f" : "extra_") + std::to_string(i), d);
    }
    fsWrite(h, data + "/postmaster.pid", "123\n", uid, gid, fm);
    fsWrite(h, data + "/postmaster.opts", "postgres\n", uid, gid, fm); extra["postmaster.opts"];
    for (auto &t : tblspc) {
        fsMkdirs(h, t.second + "/" + tblId() + "/16384", uid, gid, dm);
        fsSymlink(h, t.second, data + "/pg_tblspc/" + std::to_string(t.first), uid, gid);
    }
    makeDbs(); std::string sv2 = std::to_string(major) + "\n";
    for (auto &d : dbs) { std::string q = d.ts < 0 ? "base/" : "pg_tblspc/" + std::to_string(tblspc[(size_t)d.ts].first) + "/" + tblId() + "/"; setExtra(q + std::to_string(d.oid) + "/PG_VERSION", sv2); setExtra(q + std::to_string(d.oid) + "/pg_filenode.map", std::string(512, 'f')); }
    running = true;
    for (int i = 0; i < nRel; i++) {
        std::string rel; int64_t oid = nextRel++;
        if (!dbs.empty() && rng.chance(0.85)) { createRel(relDir() + std::to_string(oid) + (rng.chance(0.1) ? ".1" : rng.chance(0.1) ? "_fsm" : ""), rng.chance(0.1) ? 0 : (uint32_t)rng.range(1, rng.chance(0.3) ? maxPages : 5)); continue; }
        if (!tblspc.empty() && rng.chance(0.3)) { auto &t = tblspc[rng.below(tblspc.size())]; rel = "pg_tblspc/" + std::to_string(t.first) + "/" + tblId() + "/16384/" + std::to_string(oid); }
        else if (rng.chance(0.15)) rel = "global/" + std::to_string(oid);
        else rel = (rng.chance(0.2) ? "base/1/" : "base/16384/") + std::to_string(oid) + (rng.chance(0.1) ? ".1" : rng.chance(0.1) ? "_fsm" : "");
        createRel(rel, rng.chance(0.1) ? 0 : (uint32_t)rng.range(1, rng.chance(0.3) ? maxPages : 5));
    }
    checkpointLsn = lsn;
    Rec r; r.type = RCheckpoint; addRec(r); checkpointLsn = recs.back().lsn;
    flushAll(); writeControl();
    initialLsn = 0;
}

std::string Pg::relDir()
{
    if (dbs.empty()) return "base/16384/";
    size_t k = (size_t)rng.below(dbs.size() + 1); std::string id = k ? std::to_string(dbs[k - 1].oid) : "16384";
    int ts = k ? dbs[k - 1].ts : -1; if (!tblspc.empty() && rng.chance(0.3)) ts = (int)rng.below(tblspc.size());
    return ts < 0 ? "base/" + id + "/" : "pg_tblspc/" + std::to_string(tblspc[(size_t)ts].first) + "/" + tblId() + "/" + id + "/";
}
void Pg::makeDbs()
{
    for (auto &d : dbs) { if (d.ts >= (int)tblspc.size()) d.ts = -1; if (d.ts < 0) fsMkdirs(h, data + "/base/" + std::to_string(d.oid), uid, gid, dm); for (auto &t : tblspc) fsMkdirs(h, t.second + "/" + tblId() + "/" + std::to_string(d.oid), uid, gid, dm); }
}

RelState Pg::stateAt(uint64_t upto, uint32_t) const
{
    RelState s = initial;
    for (auto &r : recs) {
        if (r.end > upto) break;
        switch (r.type) {
            case RPage: { auto &v = s[r.rel]; if (v.size() <= r.blk) v.resize(r.blk + 1, 0); v[r.blk] = r.token; break; }
            case RCreate: s[r.rel] = {}; break;
            case RDrop: s.erase(r.rel); break;
            case RTrunc: if (s[r.rel].size() > r.blk) s[r.rel].resize(r.blk); break;
            default: break;
        }
    }
    return s;
}

std::string Pg::pickRel()
{
    if (rels.empty()) return "";
    auto it = rels.begin(); std::advance(it, (long)rng.below(rels.size()));
    if (frozen.count(it->first)) { for (auto &kv : rels) if (!frozen.count(kv.first)) return kv.first; return ""; }
    return it->first;
}

void Pg::act()
{
    actCount++;
    uint64_t k = rng.below(100);
    std::string rel = pickRel();
    if (k < 45 && !rel.empty()) {
        auto &v = rels[rel]; uint32_t n = (uint32_t)v.size();
        uint32_t blk = n == 0 || (rng.chance(0.15) && n < (uint32_t)maxPages) ? n : (uint32_t)rng.below(n);
        writePage(rel, blk);
        if (rng.chance(0.3)) flushPage(rel, blk, tornPages && rng.chance(0.4));
    } else if (k < 75 && !dirty.empty()) {
        auto it = dirty.begin(); std::advance(it, (long)rng.below(dirty.size())); auto p = *it;
        flushPage(p.first, p.second, tornPages && rng.chance(0.3));
    } else if (k < 80 && allowDdl) { std::string q = relDir(); createRel(q + std::to_string(nextRel++), (uint32_t)rng.range(0, 4)); }
    else if (k < 84 && allowDdl && rels.size() > 3 && !rel.empty()) dropRel(rel);
    else if (k < 88 && allowDdl && !rel.empty() && rels[rel].size() > 1) truncRel(rel, (uint32_t)rng.below(rels[rel].size()));
    else if (k < 91) checkpoint();
    else if (k < 92) switchWal();
    else if (k < 95 && extraChange && !extra.empty()) {
        auto it = extra.begin(); std::advance(it, (long)rng.below(extra.size()));
        if (it->first.find("extra_") == 0) setExtra(it->first, it->second.back().data + "x" + std::to_string(rng.below(1000)));
    } else if (k < 97) { Rec r; r.type = RCommit; addRec(r); }
    else flushAll();
}
void Pg::startActivity()
{
    active = true;
    if (actScheduled) return;
    actScheduled = true;
    Pg *self = this;
    usec gap = rng.range(actMin, actMax); if (actBurst > 250) gap *= 200;   // do not fill the disk while a command waits for a timeout
    actBurst++;
    at(W->now + gap, [self] { self->actScheduled = false; if (!self->active || !self->running) return; self->act(); self->startActivity(); });
}
void Pg::stopActivity() { active = false; actBurst = 0; }

int Pg::readyCount() const { int n = 0; for (auto &f : fsList(h, walDir() + "/archive_status")) if (f.size() > 6 && f.substr(f.size() - 6) == ".ready") n++; return n; }

void Pg::noteReady()
{
    std::vector<std::string> v; for (auto &f : fsList(h, walDir() + "/archive_status")) if (f.size() > 6 && f.substr(f.size() - 6) == ".ready") v.push_back(f.substr(0, f.size() - 6));
    for (auto &f : v) { int &m = readyMax[f]; m = std::max(m, (int)v.size()); }
}

void Pg::archiverKick()
{
    if (!archiverOn || !running || pusher || !archiveEnabled || W->now < retryAt) return;
    std::string next;
    for (auto &f : fsList(h, walDir() + "/archive_status"))
        if (f.size() > 6 && f.substr(f.size() - 6) == ".ready") {
            std::string n = f.substr(0, f.size() - 6);
            // history files first, then oldest segment
            bool nh = n.find(".history") != std::string::npos, oh = next.find(".history") != std::string::npos;
            if (next.empty() || (nh && !oh) || (nh == oh && n < next)) next = n;
        }
    if (next.empty()) return;
    std::vector<std::string> a;
    for (auto s : archiveCmd) { size_t p = s.find("%p"); if (p != std::string::npos) s.replace(p, 2, "pg_wal/" + next); a.push_back(s); }
    noteReady();
    pushing = next;
    pusher = spawn(h, a, archiveEnv, uid, gid, data, archOp);
    Pg *self = this; Proc *mine = pusher;
    std::function<void()> poll;
    auto chk = std::make_shared<std::function<void()>>();
    *chk = [self, chk, mine] {
        if (self->pusher != mine) return;
        if (!mine->exited) { at(W->now + 2000, *chk); return; }
        self->pusher = nullptr;
        int rc = mine->exitStatus; self->lastPushRc = rc;
        if (!self->running) return;
        self->lastPushOut = mine->capOut ? *mine->capOut + *mine->capErr : "";
        if (self->onPush) self->onPush(self->pushing, rc);
        if (rc == 0) {
            self->pushOk++; self->archived.insert(self->pushing);
            fsRename(self->h, self->walDir() + "/archive_status/" + self->pushing + ".ready", self->walDir() + "/archive_status/" + self->pushing + ".done");
            self->archiverKick();
        } else {
            self->pushFail++; self->lastPushErr = self->lastPushOut;
            self->retryAt = W->now + self->archRetry; at(self->retryAt, [self] { self->archiverKick(); });
        }
    };
    at(W->now + 1000, *chk);
}

void Pg::backupStart(BkState &bk)
{
    switchWal();
    bk.start = lsn; bk.startSeg = segName(lsn); bk.t0 = W->now; bk.on = true;
    // writing a checkpoint takes a while: what happens meanwhile is between its redo location and its record
    for (int k = 0; k < gapRecs; k++) { std::string rel = pickRel(); if (!rel.empty()) { uint32_t n = (uint32_t)rels[rel].size(); writePage(rel, n ? (uint32_t)rng.below(n) : 0); } }
    checkpoint(); gapLsn = checkpointLsn;
    char b[512];
    time_t t = wallSec(h); struct tm tm; gmtime_r(&t, &tm); char ts[64]; strftime(ts, sizeof ts, "%Y-%m-%d %H:%M:%S UTC", &tm);
    snprintf(b, sizeof b, "START WAL LOCATION: %s (file %s)\nCHECKPOINT LOCATION: %s\nBACKUP METHOD: streamed\nBACKUP FROM: primary\nSTART TIME: %s\nLABEL: pgBackRest backup started at %s\nSTART TIMELINE: %u\n",
        lsnStr(bk.start).c_str(), bk.startSeg.c_str(), lsnStr(checkpointLsn).c_str(), ts, ts, tli);
    bk.label = b;
}
void Pg::backupStop(BkState &bk, std::string &label, std::string &map)
{
    Rec r; r.type = RBackupEnd; r.token = bk.start; addRec(r);
    BackupRec br; br.startLsn = bk.start; br.stopLsn = lsn; br.t0 = bk.t0; br.t1 = W->now; br.label = bk.label; backups.push_back(br);
    label = bk.label; map.clear();
    for (auto &t : tblspc) map += std::to_string(t.first) + " " + t.second + "\n";
    std::string stopSeg = segName(lsn - 1);
    // backup history file
    char b[128]; snprintf(b, sizeof b, "%s.%08X.backup", bk.startSeg.c_str(), (unsigned)(bk.start & (segSize - 1)));
    std::string hist = bk.label + "STOP WAL LOCATION: " + lsnStr(lsn) + "\n";
    fsWrite(h, walDir() + "/" + b, hist, uid, gid, fm); fsWrite(h, walDir() + "/archive_status/" + b + ".ready", "", uid, gid, fm);
    walContent[b] = hist; noteReady();
    switchWal();
    bk.on = false;
}

std::string Pg::linkReal(const std::pair<std::string, std::string> &l) const
{
    if (l.second[0] == '/') return l.second;
    std::string p = data + "/" + l.first; p = p.substr(0, p.rfind('/')); std::string t = l.second;
    while (t.compare(0, 3, "../") == 0) { t = t.substr(3); p = p.substr(0, p.rfind('/')); }
    return p + "/" + t;
}
void Pg::makeLinks()                                                // parts of the cluster the administrator keeps elsewhere
{
    for (auto it = links.begin(); it != links.end();) {
        std::string src = data + "/" + it->first, to = linkReal(*it);
        if (!fsExists(h, src)) { it = links.erase(it); continue; }
        fsRemoveTree(h, to); fsMkdirs(h, to.substr(0, to.rfind('/')), uid, gid, dm);
        fsRename(h, src, to); fsSymlink(h, it->second, src, uid, gid); ++it;
    }
}
void Pg::rebootCrash()
{
    // PostgreSQL crash recovery brings its own files back to the model state (its durability is not what is being checked)
    pusher = nullptr; retryAt = 0;
    if (up || promoted) { writeAll(); replayKick(); return; }
    if (standby) return;
    for (auto d : {"", "/base", "/base/1", "/base/5", "/base/16384", "/global", "/pg_wal", "/pg_wal/archive_status", "/pg_xact", "/pg_tblspc", "/pg_multixact",
        "/pg_multixact/members", "/pg_multixact/offsets", "/pg_notify", "/pg_stat", "/pg_stat_tmp", "/pg_subtrans", "/pg_twophase", "/pg_logical", "/pg_replslot", "/pg_serial",
        "/pg_snapshots", "/pg_commit_ts", "/pg_dynshmem"})
        fsMkdirs(h, data + d, uid, gid, dm);
    for (auto &t : tblspc) {
        fsMkdirs(h, t.second + "/" + tblId() + "/16384", uid, gid, dm);
        fsSymlink(h, t.second, data + "/pg_tblspc/" + std::to_string(t.first), uid, gid);
    }
    makeDbs();
    for (auto &kv : extra) { if (kv.second.empty()) continue; std::string cur; if (!fsRead(h, data + "/" + kv.first, cur) || cur != kv.second.back().data) fsWrite(h, data + "/" + kv.first, kv.second.back().data, uid, gid, fm); }
    // drop files the model does not know, rewrite the rest
    std::vector<std::string> del;
    std::vector<std::string> roots = {"/base", "/global"}; for (auto &l : links) if (l.first.compare(0, 5, "base/") == 0) roots.push_back("/" + l.first);
    for (auto &base : roots)
        fsWalk(h, data + base, [&](const std::string &p, Inode *i) {
            if (i->type != TFile) return; std::string rel = p.substr(data.size() + 1);
            if (rels.count(rel) || extra.count(rel) || rel == "global/pg_control") return; del.push_back(p); });
    for (auto &t : tblspc)
        fsWalk(h, t.second + "/" + tblId(), [&](const std::string &p, Inode *i) {
            if (i->type != TFile) return; std::string rel = "pg_tblspc/" + std::to_string(t.first) + p.substr(t.second.size());
            if (rels.count(rel) || extra.count(rel)) return; del.push_back(p); });
    for (auto &p : del) fsUnlink(h, p);
    for (auto &kv : rels) {
        std::string want; for (uint32_t b = 0; b < kv.second.size(); b++) want += pageOf(kv.first, b, kv.second[b]);
        std::string cur; if (!fsRead(h, relPathOnDisk(kv.first), cur) || cur != want) { size_t s = kv.first.rfind('/'); fsMkdirs(h, data + "/" + kv.first.substr(0, s), uid, gid, dm); fsWrite(h, relPathOnDisk(kv.first), want, uid, gid, fm); }
    }
    dirty.clear(); badPages.clear();
    for (auto &kv : walContent) {
        std::string st = walDir() + "/archive_status/" + kv.first;
        if (archived.count(kv.first)) {                             // PostgreSQL may archive a file again
            bool again = fsExists(h, st + ".ready") || (fsExists(h, walDir() + "/" + kv.first) && rng.chance(0.15));
            fsUnlink(h, st + ".done"); fsUnlink(h, st + ".ready");
            if (!again) { fsUnlink(h, walDir() + "/" + kv.first); continue; }
        }
        fsWrite(h, walDir() + "/" + kv.first, kv.second, uid, gid, fm); fsWrite(h, st + ".ready", "", uid, gid, fm);
    }
    fsWrite(h, walDir() + "/" + curSeg, segBuf, uid, gid, fm);
    fsUnlink(h, data + "/global/pg_control"); writeControl();
    fsSyncTree(h, data); for (auto &t : tblspc) fsSyncTree(h, t.second); for (auto &l : links) { std::string r = linkReal(l); fsSyncTree(h, r.substr(0, r.rfind('/'))); }
    checkpoint();
}

// Standby: files as of the replayed position, written as after a restartpoint
void Pg::writeAll()
{
    fsRemoveTree(h, data); for (auto &t : tblspc) fsRemoveTree(h, t.second);
    for (auto d : {"", "/base", "/base/1", "/base/5", "/base/16384", "/global", "/pg_wal", "/pg_wal/archive_status", "/pg_xact", "/pg_tblspc", "/pg_multixact",
        "/pg_multixact/members", "/pg_multixact/offsets", "/pg_notify", "/pg_stat", "/pg_stat_tmp", "/pg_subtrans", "/pg_twophase", "/pg_logical", "/pg_replslot", "/pg_serial",
        "/pg_snapshots", "/pg_commit_ts", "/pg_dynshmem"})
        fsMkdirs(h, data + d, uid, gid, dm);
    for (auto &t : tblspc) { fsMkdirs(h, t.second + "/" + tblId() + "/16384", uid, gid, dm); fsSymlink(h, t.second, data + "/pg_tblspc/" + std::to_string(t.first), uid, gid); }
    makeDbs();
    for (auto &kv : extra) if (!kv.second.empty()) fsWrite(h, data + "/" + kv.first, kv.second.back().data, uid, gid, fm);
    fsWrite(h, data + "/standby.signal", "", uid, gid, fm); fsWrite(h, data + "/postgresql.auto.conf", "primary_conninfo = 'host=pg1'\n", uid, gid, fm); fsWrite(h, data + "/postmaster.pid", "124\n", uid, gid, fm);
    for (auto &kv : rels) {
        std::string w; for (uint32_t b = 0; b < kv.second.size(); b++) w += pageOf(kv.first, b, kv.second[b]);
        size_t s = kv.first.rfind('/'); fsMkdirs(h, data + "/" + kv.first.substr(0, s), uid, gid, dm); fsWrite(h, relPathOnDisk(kv.first), w, uid, gid, fm);
    }
    dirty.clear(); tearing.clear(); writeControl();
    fsSyncTree(h, data); for (auto &t : tblspc) fsSyncTree(h, t.second);
}
void Pg::unfollow() { if (up) for (auto it = up->downs.begin(); it != up->downs.end();) if (*it == this) it = up->downs.erase(it); else ++it; up = nullptr; }
void Pg::follow(Pg *p)                                              // new standby made from the primary as it is now
{
    unfollow(); up = p; p->downs.push_back(this); standby = running = true; replayStalled = foreign = promoted = dropConn = holdCkpt = false; tliForce = 0; replayFlush = true;
    major = p->major; sysid = p->sysid; checksum = p->checksum; segSize = p->segSize; tli = p->tli; dbs = p->dbs; template0New = p->template0New; tornPages = p->tornPages; queryDelayMax = p->queryDelayMax;
    rels = p->rels; replayed = p->recs.size(); replayLsn = lsn = p->lsn; checkpointLsn = lastCkpt = p->checkpointLsn;
    extra.clear();
    for (auto &kv : p->extra) {
        if (kv.second.empty()) continue; std::string d = kv.second.back().data; const std::string &f = kv.first;
        bool replicated = f.compare(0, 5, "base/") == 0 || f.compare(0, 7, "global/") == 0 || f.compare(0, 8, "pg_xact/") == 0 || f.compare(0, 10, "pg_tblspc/") == 0 || f == "PG_VERSION";
        if (!replicated) { if (f.compare(0, 3, "pg_") != 0 && f != "postgresql.conf" && rng.chance(0.3)) continue; d = "standby " + d; }
        extra[f] = {{d, W->now, INT64_MAX}};
    }
    if (std::find(pgs.begin(), pgs.end(), this) == pgs.end()) pgs.push_back(this);
    writeAll();
}
void Pg::replayKick()
{
    if (!up || !running || !standby || replayStalled || replaySched || replayed >= up->recs.size()) return;
    replaySched = true; Pg *self = this; at(W->now + rng.range(50, lagMax), [self] { self->replaySched = false; self->replayStep(); });
}
void Pg::replayStep()
{
    if (!up || !running || !standby || replayStalled) return;
    size_t n = replayBatch > 1 && rng.chance(0.25) ? up->recs.size() : (size_t)rng.range(1, replayBatch);
    for (; n > 0 && replayed < up->recs.size(); n--, replayed++) {
        const Rec &r = up->recs[replayed]; if (holdCkpt && r.lsn == up->gapLsn) break;
        replayLsn = lsn = r.end; uint64_t tok = foreign ? r.token ^ 0x40 : r.token;
        switch (r.type) {
            case RPage: { auto &v = rels[r.rel]; if (v.size() <= r.blk) v.resize(r.blk + 1, 0); v[r.blk] = tok; dirty.insert({r.rel, r.blk}); break; }
            case RCreate: { rels[r.rel] = {}; size_t s = r.rel.rfind('/'); fsMkdirs(h, data + "/" + r.rel.substr(0, s), uid, gid, dm); fsWrite(h, relPathOnDisk(r.rel), "", uid, gid, fm); break; }
            case RDrop: rels.erase(r.rel); fsUnlink(h, relPathOnDisk(r.rel)); for (auto it = dirty.begin(); it != dirty.end();) if (it->first == r.rel) it = dirty.erase(it); else ++it; break;
            case RTrunc: {
                if (rels[r.rel].size() > r.blk) rels[r.rel].resize(r.blk);
                for (auto it = dirty.begin(); it != dirty.end();) if (it->first == r.rel && it->second >= r.blk) it = dirty.erase(it); else ++it;
                Inode *i = fsLookup(h, relPathOnDisk(r.rel)); if (i && i->data->size() > (size_t)r.blk * PAGE) { i->data = std::make_shared<std::string>(i->data->substr(0, (size_t)r.blk * PAGE)); i->gen++; fsTouch(h, i); }
                break; }
            case RCheckpoint: lastCkpt = r.lsn; break;
            default: break;
        }
    }
    if (replayFlush) {
        for (int64_t k = rng.range(0, 3); k > 0 && !dirty.empty(); k--) { auto it = dirty.begin(); std::advance(it, (long)rng.below(dirty.size())); auto p = *it; flushPage(p.first, p.second, tornPages && rng.chance(0.3)); }
        if (rng.chance(0.08)) restartpoint();
    }
    replayKick();
}
void Pg::restartpoint()
{
    if (promoted) { flushAll(); checkpointLsn = lsn; writeControl(); return; }
    if (lastCkpt <= checkpointLsn) return;                          // nothing to base it on
    flushAll(); checkpointLsn = lastCkpt; tli = tliForce ? tliForce : up ? up->tli : tli; writeControl(true);
}
void Pg::promote()                                                  // ends recovery and goes its own way
{
    if (!up || !running) return;
    tli = up->tli + 1; unfollow(); standby = false; promoted = true; lsn += 4096; checkpointLsn = lsn; flushAll(); writeControl();
    Pg *self = this; auto n = std::make_shared<int>(60); auto f = std::make_shared<std::function<void()>>();
    *f = [self, n, f] {
        if (!self->promoted || --*n <= 0) return;
        std::string rel = self->pickRel(); if (!rel.empty()) { auto &v = self->rels[rel]; uint32_t b = v.empty() ? 0 : (uint32_t)self->rng.below(v.size()); if (v.size() <= b) v.resize(b + 1, 0); self->lsn += 64; v[b] = self->lsn | 4; self->flushPage(rel, b, false); }
        at(W->now + self->rng.range(50, 1500), *f);
    };
    at(W->now + 50, *f);
}

void Pg::becomeTimeline(uint32_t newTli)
{
    // end of recovery on a new timeline: last segment of the old timeline becomes .partial, history file is archived
    char hn[64]; snprintf(hn, sizeof hn, "%08X.history", newTli);
    std::string hist; for (auto &kv : walContent) if (kv.first.size() > 8 && kv.first.substr(8) == ".history" && (uint32_t)strtoul(kv.first.substr(0, 8).c_str(), nullptr, 16) == tli) hist = kv.second;
    char b[256]; snprintf(b, sizeof b, "%u\t%s\tno recovery target specified\n\n", tli, lsnStr(lsn).c_str()); hist += b;
    walContent[hn] = hist;
    std::string part = curSeg + ".partial";
    walContent[part] = segBuf;
    fsWrite(h, walDir() + "/" + part, segBuf, uid, gid, fm); fsWrite(h, walDir() + "/archive_status/" + part + ".ready", "", uid, gid, fm);
    fsUnlink(h, walDir() + "/" + curSeg);
    fsWrite(h, walDir() + "/" + hn, hist, uid, gid, fm); fsWrite(h, walDir() + "/archive_status/" + hn + ".ready", "", uid, gid, fm);
    noteReady();
    std::string old = segBuf; uint64_t l = lsn;
    tli = newTli;
    curSeg = segName(lsn);
    memcpy(&segBuf[4], &tli, 4);
    fsWrite(h, walDir() + "/" + curSeg, segBuf, uid, gid, fm);
    lsn = l;
    checkpoint(); writeControl();
    archiverKick();
}

} // namespace sim
using namespace sim;

//=================================================================================================================================
// libpq stub
//=================================================================================================================================
struct SimConn { Pg *pg; std::string err; bool ok; bool busy; usec doneAt; std::string query; bool fetched; int fd; OFile *of; bool lost; BkState bk; bool canceled; };
struct SimRes { std::vector<std::vector<std::string>> rows; std::vector<std::vector<bool>> nul; std::vector<unsigned> types; ExecStatusType st; std::string err; };

static uint64_t lsnParse(const char *s) { unsigned a = 0, b = 0; sscanf(s, "%X/%X", &a, &b); return ((uint64_t)a << 32) | b; }
static std::string runQuery(SimConn *c, SimRes *r)
{
    Pg *pg = c->pg; const std::string &q = c->query;
    auto has = [&](const char *s) { return q.find(s) != std::string::npos; };
    r->st = PGRES_TUPLES_OK;
    auto row = [&](std::vector<std::pair<unsigned, std::string>> v) {
        r->types.clear(); std::vector<std::string> x; for (auto &p : v) { r->types.push_back(p.first); x.push_back(p.second); } r->rows.push_back(x); r->nul.push_back(std::vector<bool>(x.size(), false)); };
    if (has("server_version_num")) row({{23, std::to_string(pgVer(pg->major).num + 3)}, {25, pg->data}, {25, "on"}, {25, "pgbackrest archive-push %p"}, {23, "300"}});
    else if (has("pg_is_in_recovery")) row({{16, pg->standby ? "t" : "f"}});
    else if (has("backup_start") || has("start_backup")) {
        if (pg->standby || pg->promoted) { r->st = PGRES_FATAL_ERROR; r->err = "recovery is in progress"; return ""; }
        pg->backupStart(c->bk);
        row({{25, lsnStr(c->bk.start)}, {25, c->bk.startSeg}});
    } else if (has("backup_stop") || has("stop_backup")) {
        if (!c->bk.on) { r->st = PGRES_FATAL_ERROR; r->err = "backup is not in progress"; return ""; }
        std::string l, m; uint64_t stop; std::string seg;
        pg->backupStop(c->bk, l, m); stop = pg->backups.back().stopLsn; seg = pg->segName(stop - 1);
        row({{25, lsnStr(stop)}, {25, seg}, {25, l}, {25, m}});
    } else if (has("create_restore_point")) { Rec x; x.type = RNoop; pg->addRec(x); row({{25, lsnStr(pg->lsn)}}); }
    else if (has("pg_switch_wal") || has("pg_switch_xlog")) { pg->lastSwitch = pg->switchWal(); row({{25, pg->lastSwitch}}); }
    else if (has("pg_current_wal_insert")) row({{25, pg->segName(pg->lsn)}});
    else if (has("clock_timestamp")) row({{20, std::to_string((pg->h->clockOff + W->now + W->epoch * 1000000) / 1000)}});
    else if (has("pg_tablespace")) { row({{26, "1663"}, {25, "pg_default"}}); for (auto &t : pg->tblspc) row({{26, std::to_string(t.first)}, {25, "ts" + std::to_string(t.first)}}); }
    else if (has("pg_database")) { row({{26, "1"}, {25, "template1"}, {26, "4"}}); if (!pg->template0New) row({{26, "4"}, {25, "template0"}, {26, "4"}}); row({{26, "5"}, {25, "postgres"}, {26, "4"}}); row({{26, "16384"}, {25, "app"}, {26, "4"}}); for (auto &d : pg->dbs) row({{26, std::to_string(d.oid)}, {25, d.name}, {26, "4"}}); }
    else if (has("pg_last_wal_replay_lsn") || has("replayLsn")) {
        uint64_t at = pg->up || pg->promoted ? pg->replayLsn : pg->lsn; std::vector<std::pair<unsigned, std::string>> v = {{25, lsnStr(at)}}; size_t p = 0;
        while ((p = q.find("replayLsn > '", p)) != std::string::npos) { p += 13; v.push_back({16, at > lsnParse(q.c_str() + p) ? "t" : "f"}); }
        row(v);
    } else if (has("pg_control_checkpoint")) { size_t p = q.find(">= '"); row({{16, p == std::string::npos || pg->checkpointLsn >= lsnParse(q.c_str() + p + 4) ? "t" : "f"}, {25, lsnStr(pg->checkpointLsn)}}); }
    else if (q.compare(0, 4, "set ") == 0) r->st = PGRES_COMMAND_OK;
    else if (q == "checkpoint") { if (pg->up || pg->promoted) pg->restartpoint(); else if (!pg->standby) pg->checkpoint(); r->st = PGRES_COMMAND_OK; }
    else { r->st = PGRES_FATAL_ERROR; r->err = "sim: unknown query: " + q; fprintf(stderr, "sim: unknown query %s\n", q.c_str()); }
    return "";
}

extern "C" {
void *sim_PQconnectdb(const char *ci)
{
    sysEnter(S_PQ, "connect"); int ierr = takeErr();
    SimConn *c = new SimConn{}; c->fd = -1;
    int port = 5432; const char *p = strstr(ci, "port="); if (p) port = atoi(p + 5);
    for (auto g : pgs) if (g->h == W->cur->host && g->port == port && g->running) c->pg = g;
    c->ok = c->pg != nullptr;
    if (c->ok && (c->pg->dropConn || ierr)) c->ok = false;
    if (!c->ok) { c->err = "connection refused"; return c; }
    c->of = new OFile; c->of->kind = OPq; c->of->rdy = [c] { return c->busy && (c->lost || W->now >= c->doneAt || !c->pg->running); };
    c->fd = fdSockNew(W->cur, c->of);
    return c;
}
ConnStatusType sim_PQstatus(void *v) { return ((SimConn *)v)->ok ? CONNECTION_OK : CONNECTION_BAD; }
char *sim_PQerrorMessage(void *v) { return (char *)((SimConn *)v)->err.c_str(); }
int sim_PQsendQuery(void *v, const char *q)
{
    SimConn *c = (SimConn *)v;
    sysEnter(S_PQ, "query");
    if (takeErr()) { c->lost = true; c->bk.on = false; }
    if (!c->ok || !c->pg->running || c->lost) { c->err = "server closed the connection unexpectedly"; return 0; }
    c->query = q; c->busy = true; c->fetched = false; c->doneAt = W->now + 50 + (usec)W->sched.below((uint64_t)c->pg->queryDelayMax);
    if (c->pg->stallBackupStop && (c->query.find("backup_stop") != std::string::npos || c->query.find("stop_backup") != std::string::npos)) c->doneAt += c->pg->stallBackupStop;
    at(c->doneAt, [] {});
    return 1;
}
int sim_PQconsumeInput(void *) { return 1; }
int sim_PQisBusy(void *v) { SimConn *c = (SimConn *)v; return c->busy && !c->fetched && !c->lost && c->pg->running && W->now < c->doneAt; }
int sim_PQsocket(void *v) { return ((SimConn *)v)->fd; }
void *sim_PQgetResult(void *v)
{
    SimConn *c = (SimConn *)v;
    if (!c->busy || c->fetched) { c->busy = false; return nullptr; }
    // wait for result, as libpq does
    if (W->now < c->doneAt && c->pg->running && !c->lost) blockOn([c] { return W->now >= c->doneAt || !c->pg->running || c->lost; }, c->doneAt);
    c->fetched = true;
    SimRes *r = new SimRes;
    if (!c->pg->running || c->lost) { r->st = PGRES_FATAL_ERROR; r->err = "terminating connection due to administrator command"; return r; }
    if (c->canceled) { c->canceled = false; r->st = PGRES_FATAL_ERROR; r->err = "canceling statement due to user request"; return r; }
    Proc *me = W->cur; W->cur = nullptr;                            // runs inside the server, not in the client process
    runQuery(c, r);
    W->cur = me;
    logf("PQ %s -> %d rows", c->query.substr(0, 60).c_str(), (int)r->rows.size());
    return r;
}
ExecStatusType sim_PQresultStatus(const void *v) { return v ? ((const SimRes *)v)->st : PGRES_FATAL_ERROR; }
char *sim_PQresultErrorMessage(const void *v) { return v ? (char *)((const SimRes *)v)->err.c_str() : (char *)""; }
int sim_PQntuples(const void *v) { return (int)((const SimRes *)v)->rows.size(); }
int sim_PQnfields(const void *v) { return (int)((const SimRes *)v)->types.size(); }
unsigned sim_PQftype(const void *v, int c) { return ((const SimRes *)v)->types[(size_t)c]; }
char *sim_PQgetvalue(const void *v, int r, int c) { return (char *)((const SimRes *)v)->rows[(size_t)r][(size_t)c].c_str(); }
int sim_PQgetisnull(const void *v, int r, int c) { return ((const SimRes *)v)->nul[(size_t)r][(size_t)c]; }
void sim_PQclear(void *) {}
void sim_PQfinish(void *v)
{
    SimConn *c = (SimConn *)v;
    if (c->fd >= 0 && W->cur && (size_t)c->fd < W->cur->fd.size() && W->cur->fd[(size_t)c->fd] == c->of) W->cur->fd[(size_t)c->fd] = nullptr;
    c->bk.on = false;                                               // session end aborts the backup
}
void *sim_PQgetCancel(void *v) { return v; }
int sim_PQcancel(void *v, char *, int) { SimConn *c = (SimConn *)v; c->doneAt = W->now; c->canceled = true; return 1; }
void sim_PQfreeCancel(void *) {}
void *sim_PQsetNoticeProcessor(void *, void *, void *) { return nullptr; }
}
