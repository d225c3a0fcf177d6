// simrun: executes plans. Every run happens in a forked child so that runs cannot influence each other.
#include "harness.h"
#include <algorithm>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <sys/personality.h>

using namespace sim;

static double wallNow() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + (double)t.tv_nsec / 1e9; }

// a run that burns this much CPU never gave it up (measured in CPU time so that a loaded machine cannot trigger it)
static void cpuLimit(int sec) { struct itimerval t = {}; t.it_value.tv_sec = sec; setitimer(ITIMER_VIRTUAL, &t, nullptr); }
static bool gTrace; static FILE *gTraceF;

//---------------------------------------------------------------------------------------------------------------------------------
struct Res { std::string text; std::string violClass, viol; uint64_t hash = 0, sched = 0; bool crashed = false; };

static std::string resText(Run &r)
{
    std::string t;
    t += fmt("hash=%016llx sched=%016llx\n", (unsigned long long)W->hash, (unsigned long long)W->schedHash);
    t += fmt("stat steps=%lld switches=%lld syscalls=%lld procs=%lld virt=%lld segv=%lld lostent=%lld lostdata=%lld torn=%lld\n", (long long)W->stats.steps, (long long)W->stats.switches, (long long)W->stats.syscalls,
        (long long)W->stats.procs, (long long)W->now, (long long)W->stats.segv, (long long)W->stats.powerLostEnt, (long long)W->stats.powerLostData, (long long)W->stats.powerTorn);
    for (int k = 1; k < FK_COUNT; k++) if (W->stats.faults[k]) t += fmt("faultk %s=%lld\n", faultName[k], (long long)W->stats.faults[k]);
    for (int k = 0; k < S_COUNT; k++) if (W->stats.faultSys[k]) t += fmt("faults %s=%lld\n", sysName[k], (long long)W->stats.faultSys[k]);
    for (auto &f : W->faults) if (f.fired) t += "where " + std::string(faultName[f.kind]) + " " + f.where + "\n";
    for (auto &p : r.probes) t += fmt("probe %s=%lld\n", p.first.c_str(), (long long)p.second);
    if (!W->violation.empty()) { std::string m = W->violation; for (auto &c : m) if (c == '\n') c = '|'; t += "class " + W->violClass + "\nviol " + m + "\n"; }
    t += "plan\n" + r.plan.text();
    return t;
}

static void writeAll(int fd, const std::string &s) { size_t o = 0; while (o < s.size()) { ssize_t n = write(fd, s.data() + o, s.size() - o); if (n <= 0) _exit(98); o += (size_t)n; } }
static std::string readAll(int fd) { std::string s; char b[65536]; ssize_t n; while ((n = read(fd, b, sizeof b)) != 0) { if (n < 0) { if (errno == EINTR) continue; break; } s.append(b, (size_t)n); } return s; }

// Fork, run fn in the child with a result fd, return what it wrote
static std::string inChild(const std::function<void(int)> &fn, int *status = nullptr)
{
    int p[2]; if (pipe(p)) { perror("pipe"); exit(99); }
    fflush(stdout); fflush(stderr); if (gTraceF) fflush(gTraceF);
    pid_t c = fork();
    if (c < 0) { perror("fork"); exit(99); }
    if (c == 0) { close(p[0]); fn(p[1]); if (gTraceF) fflush(gTraceF); fflush(stderr); _exit(0); }
    close(p[1]); std::string r = readAll(p[0]); close(p[0]);
    int st; while (waitpid(c, &st, 0) < 0 && errno == EINTR) { }
    if (status) *status = st;
    return r;
}

static void doOps(Run &r, int from) { for (int i = from; i < (int)r.plan.ops.size() && !r.bad(); i++) { r.execOp(i); } if (!r.bad()) r.finish(); }

// Execute a complete plan (replay semantics) in this process
static void execFull(Plan &p, int fd)
{
    cpuLimit(200);
    Run r(p); r.setup();
    W->trace = gTrace; W->traceFile = gTraceF;
    W->faults = p.faults;
    doOps(r, 0);
    if (fd >= 0) writeAll(fd, resText(r));
}

// Execute a plan and explore variants of faults at the target op. fd receives concatenated results separated by "\x01\n".
static void execExplore(Plan &p, int fd, uint64_t vseed, double deadline)
{
    cpuLimit(600);
    Run r(p); r.setup(); W->trace = gTrace; W->traceFile = gTraceF;
    W->faults = p.faults;
    for (int i = 0; i < p.target && !r.bad(); i++) r.execOp(i);
    if (r.bad()) { writeAll(fd, resText(r) + "\x01\n"); return; }
    // profile
    std::string prof = inChild([&](int f) {
        W->profiling = true; r.execOp(p.target);
        std::string o; for (auto &e : W->prof) { o.append((const char *)&e.sys, 1); o.append((const char *)&e.cls, 1); o.append((const char *)&e.site, 8); }
        // and finish the run without a fault: the fault-free history is a run of its own
        if (!r.bad()) doOps(r, p.target + 1);
        std::string t = resText(r);
        uint64_t n = o.size(); writeAll(f, std::string((const char *)&n, 8) + o + t);
    });
    if (prof.size() < 8) { writeAll(fd, "crashed profile\nplan\n" + p.text() + "\x01\n"); return; }
    uint64_t pn; memcpy(&pn, prof.data(), 8);
    writeAll(fd, prof.substr(8 + pn) + "\x01\n");
    if (prof.find("\nviol ") != std::string::npos) return;
    struct PE { uint8_t sys, cls; uint64_t site; uint32_t idx; };
    std::vector<PE> pe;
    for (size_t o = 0; o + 10 <= pn; o += 10) { PE e; memcpy(&e.sys, &prof[8 + o], 1); memcpy(&e.cls, &prof[8 + o + 1], 1); memcpy(&e.site, &prof[8 + o + 2], 8); e.idx = (uint32_t)(o / 10); pe.push_back(e); }
    Rng vr(vseed);
    for (int v = 0; v < p.variants && wallNow() < deadline; v++) {
        Plan q = p;
        std::vector<Fault> fs = genVariant(q, vr);
        for (auto &f : fs) {
            bool other = f.op >= 0 && f.op != p.target;
            if (f.op == -1) f.op = p.target;
            if (f.op == -2) f.op = -1;
            if (f.nth >= 0 && f.frac < 0) continue;
            if (other) { size_t k = 0; for (auto &e : pe) { if (f.cls && !(f.cls & e.cls)) continue; if (f.sys >= 0 && f.sys != e.sys) continue; k++; } f.nth = (int64_t)vr.below(k + 1); f.frac = -1; continue; }
            // choose the call: class filtered, biased towards rare sites
            std::vector<const PE *> c; for (auto &e : pe) { if (f.cls && !(f.cls & e.cls)) continue; if (f.sys >= 0 && f.sys != e.sys) continue; c.push_back(&e); }
            if (f.kind == FK_NOMEM) { f.nth = (int64_t)vr.below(1ull << (3 + vr.below(14))); f.frac = -1; continue; }
            if (c.empty()) { f.nth = 1 << 30; continue; }
            size_t pick;
            if (vr.chance(0.65)) {
                std::map<uint64_t, std::vector<size_t>> bySite; for (size_t k = 0; k < c.size(); k++) bySite[c[k]->site].push_back(k);
                auto it = bySite.begin(); std::advance(it, (long)vr.below(bySite.size())); pick = it->second[vr.below(it->second.size())];
            } else pick = vr.below(c.size());
            f.nth = (int64_t)pick; f.frac = -1;
        }
        for (auto &f : fs) q.faults.push_back(f);
        int st = 0;
        std::string t = inChild([&](int f) { cpuLimit(200); r.plan = q; W->faults = q.faults; doOps(r, p.target); writeAll(f, resText(r)); }, &st);
        if (t.empty()) t = fmt("crashed status=%x\nplan\n", st) + q.text();
        writeAll(fd, t + "\x01\n");
        if (t.find("\nviol ") != std::string::npos) return;
    }
}

static std::string slurp(const char *f) { FILE *h = fopen(f, "rb"); if (!h) return ""; std::string s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, h)) > 0) s.append(b, n); fclose(h); return s; }

int main(int argc, char **argv)
{
    // address space randomisation off: nothing may depend on it, but it keeps native debugging simple
    if (!getenv("SIM_NO_ASLR")) { setenv("SIM_NO_ASLR", "1", 1); personality(ADDR_NO_RANDOMIZE); execv("/proc/self/exe", argv); }
    signal(SIGPIPE, SIG_IGN);
    std::map<std::string, std::string> o; std::string mode = argc > 1 ? argv[1] : "";
    for (int i = 2; i < argc; i++) { std::string a = argv[i]; if (a.substr(0, 2) == "--") { size_t q = a.find('='); o[a.substr(2, q == std::string::npos ? q : q - 2)] = q == std::string::npos ? "1" : a.substr(q + 1); } else o["file"] = a; }
    if (o.count("trace")) { gTrace = true; gTraceF = o["trace"] == "1" ? stderr : fopen(o["trace"].c_str(), "w"); }
    std::string tier = o.count("tier") ? o["tier"] : "quick";
    if (mode == "props") { for (auto &p : propList) puts(p.c_str()); return 0; }
    if (mode == "gen") { fputs(genPlan(o["prop"], strtoull(o["seed"].c_str(), nullptr, 10), tier).text().c_str(), stdout); return 0; }
    if (mode == "run") {                                            // run a plan file; prints the result
        Plan p; std::string expect; if (!Plan::parse(slurp(o["file"].c_str()), p, &expect)) { fprintf(stderr, "bad plan file\n"); return 2; }
        int st = 0; std::string t = inChild([&](int fd) { execFull(p, fd); }, &st);
        if (t.empty()) { printf("crashed status=%x\n", st); return 3; }
        fputs(t.c_str(), stdout);
        return t.find("\nviol ") != std::string::npos ? 1 : 0;
    }
    if (mode == "one") {                                            // one generated plan, with exploration
        uint64_t seed = strtoull(o["seed"].c_str(), nullptr, 10);
        Plan p = genPlan(o["prop"], seed, tier);
        if (o.count("variants")) p.variants = atoi(o["variants"].c_str());
        int st = 0; std::string t = inChild([&](int fd) { if (p.target >= 0 && p.variants > 0) execExplore(p, fd, seed ^ 0xABCDEF, wallNow() + 1e6); else execFull(p, fd); }, &st);
        fputs(t.c_str(), stdout); if (t.empty()) printf("crashed status=%x\n", st);
        return t.find("\nviol ") != std::string::npos ? 1 : 0;
    }
    if (mode == "batch") {                                          // --prop --seed --stride --time --out
        uint64_t seed = strtoull(o["seed"].c_str(), nullptr, 10), stride = o.count("stride") ? strtoull(o["stride"].c_str(), nullptr, 10) : 1;
        double end = wallNow() + atof(o["time"].c_str()); uint64_t max = o.count("max") ? strtoull(o["max"].c_str(), nullptr, 10) : ~0ull;
        FILE *out = o.count("out") ? fopen(o["out"].c_str(), "w") : stdout;
        for (uint64_t k = 0; k < max && wallNow() < end; k++, seed += stride) {
            Plan p = genPlan(o["prop"], seed, tier);
            int st = 0; double t0 = wallNow();
            std::string t = inChild([&](int fd) { if (p.target >= 0 && p.variants > 0) execExplore(p, fd, seed ^ 0xABCDEF, end); else { execFull(p, fd); writeAll(fd, "\x01\n"); } }, &st);
            if (t.empty() || st) { t += fmt("crashed status=%x\nplan\n", st) + p.text() + "\x01\n"; }
            fprintf(out, "seed %llu wall=%.3f\n%s\x02\n", (unsigned long long)seed, wallNow() - t0, t.c_str()); fflush(out);
            if (t.find("\nviol ") != std::string::npos || t.find("crashed ") == 0) break;
        }
        return 0;
    }
    fprintf(stderr, "usage: simrun props | gen | run FILE | one | batch\n");
    return 2;
}
