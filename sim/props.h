#pragma once
#include "harness.h"
namespace sim {
struct Swarm { int repos = 0; int remote = -1; int cipher = -1; int async = -1; bool skew = true; bool small = false; };
void swarm(Plan &p, Rng &r, const Swarm &w);
std::vector<std::string> csv(const std::string &s);
Fault mkFault(const std::string &k, Rng &r);
std::vector<std::string> extraArgs(const Op &op);

struct Prop { const char *id; std::function<void(Plan &, Rng &, bool)> gen; };
const std::vector<Prop> &moreProps();                               // prop_more.cpp
bool moreOp(Run &run, int i, const Op &op);

inline Op O(const std::string &n, SMap a = {}) { return Op{n, a}; }
inline std::string S(int64_t v) { return std::to_string(v); }
inline std::string rtype(Rng &r) { return r.pick(std::vector<std::string>{"full", "diff", "incr", "incr"}); }

// options of one backup that differ from the configuration, as when the configuration is changed between backups
inline std::string backupOpts(Rng &r, const std::string &rp)
{
    switch (r.below(12)) {
        case 0: return " --compress-type=" + r.pick(std::vector<std::string>{"none", "lz4", "zst", "gz", "bz2"});
        case 1: return r.chance(0.5) ? " --delta" : " --no-delta";
        case 2: return " --process-max=" + std::to_string(r.range(1, 4));
        case 3: return " --no-repo" + rp + "-bundle";
        case 4: return " --no-repo" + rp + "-bundle --repo" + rp + "-hardlink";
        case 5: return " --repo" + rp + "-bundle";
        case 6: return " --repo" + rp + "-bundle --repo" + rp + "-block";
        case 7: return " --repo" + rp + "-bundle --repo" + rp + "-block --repo" + rp + "-bundle-limit=8KiB";
        case 8: return " --repo" + rp + "-bundle --no-repo" + rp + "-block";
        case 9: return r.chance(0.5) ? " --checksum-page" : " --no-checksum-page";
        case 10: return " --archive-copy";
    }
    return "";
}

// stanza-create and n backups with activity between them
inline void history(Plan &p, Rng &r, int n, bool extra = true)
{
    p.ops.push_back(O("stanza-create"));
    int repos = (int)p.n("repos", 1);
    bool mix = r.chance(0.25);
    for (int i = 0; i < n; i++) {
        p.ops.push_back(O("activity", {{"ms", S(r.range(5, 300))}}));
        if (extra && r.chance(0.15)) p.ops.push_back(O("sleep", {{"ms", S(r.range(500, 90000))}}));
        std::string rp = S(r.range(1, repos)); Op b = O("backup", {{"type", i == 0 ? "full" : rtype(r)}, {"repo", rp}});
        if (mix && r.chance(0.6)) { std::string a = backupOpts(r, rp); if (!a.empty()) b.a["args"] = a; }
        p.ops.push_back(b);
    }
    p.ops.push_back(O("activity", {{"ms", S(r.range(5, 200))}}));
}
inline int addTarget(Plan &p, Op o) { p.ops.push_back(o); p.target = (int)p.ops.size() - 1; return p.target; }
inline std::string pick(Rng &r, std::initializer_list<const char *> l) { std::vector<const char *> v(l); return v[r.below(v.size())]; }

}
