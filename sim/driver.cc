// Batch driver: seeded search over many simulated runs, determinism gate,
// minimisation, replay files, evidence counters.
//
// Every run executes in its own child forked from a process that has never
// called the library, so that no run can see state left behind by another.
#include "core.h"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cstdarg>
#include <cstdlib>
#include <map>
#include <set>
#include <sstream>
#include <fstream>
#include <csignal>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <exception>
#include <typeinfo>
#include <cxxabi.h>

namespace sim {

WorldInfo const * g_worlds = nullptr;

namespace {

constexpr size_t STATE_SLOTS = 1u << 22;
constexpr size_t COV_SLOTS = 1u << 16;
constexpr int MAX_COUNTERS = 200;

// Result of one run, in memory shared between parent and child.
struct Result {
    volatile int phase;          // 0 not started, 1 running, 2 done, 3 violation, 4 harness error
    char cls[96];
    char detail[1600];
    u64 hash, steps, simtime;
    int nontrivial;
    int ncounters;
    struct { char name[56]; u64 n; } counters[MAX_COUNTERS];
};
Result * g_res = nullptr;               // of the current run (child side)
Run * g_run = nullptr;
unsigned char * g_states = nullptr;     // shared: distinct abstract states
unsigned char * g_cov = nullptr;        // shared: library edges ever executed

template <typename T> T * shared(size_t n = 1) {
    void * p = mmap(nullptr, sizeof(T) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); _exit(99); }
    return static_cast<T *>(p);
}
double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

void setViolation(char const * cls, char const * detail) {
    if (!g_res) return;
    std::snprintf(g_res->cls, sizeof g_res->cls, "%s", cls);
    std::snprintf(g_res->detail, sizeof g_res->detail, "%s", detail);
    if (g_run) g_res->hash = g_run->log.h;
}

} // namespace

std::string Plan::text() const {
    std::string s;
    char b[40];
    for (auto const & o : ops) {
        s += "op " + o.name;
        for (u64 x : o.a) { std::snprintf(b, sizeof b, " %llx", (unsigned long long)x); s += b; }
        s += '\n';
    }
    return s;
}

void Run::event(char const * fmt, ...) {
    Untracked u;
    SIM_FMT(buf, fmt);
    log.s(buf, std::strlen(buf));
    if (verbose) std::printf("  %s\n", buf);
}
void Run::count(char const * name, u64 n) {
    if (!g_res) return;
    for (int i = 0; i < g_res->ncounters; ++i)
        if (!std::strcmp(g_res->counters[i].name, name)) { g_res->counters[i].n += n; return; }
    if (g_res->ncounters == MAX_COUNTERS) return;
    auto & c = g_res->counters[g_res->ncounters++];
    std::snprintf(c.name, sizeof c.name, "%s", name);
    c.n = n;
}
void Run::state(u64 h) { if (g_states) g_states[mix(h) % STATE_SLOTS] = 1; }
void Run::fail(char const * cls, char const * fmt, ...) {
    Untracked u;
    SIM_FMT(buf, fmt);
    throw Violation{cls, buf};
}

void die(char const * cls, char const * fmt, ...) {
    env::track(false);
    SIM_FMT(buf, fmt);
    setViolation(cls, buf);
    if (g_res) g_res->phase = 3;
    _exit(70);
}
void * sharedBytes(size_t n) { return shared<unsigned char>(n); }

void isolated(Run & run, std::function<void()> const & fn) {
    std::fflush(stdout);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); _exit(99); }
    if (pid == 0) {
        alarm(240);
        try {
            fn();
        } catch (Violation const & v) {
            env::track(false);
            setViolation(v.cls.c_str(), v.detail.c_str());
            g_res->phase = 3;
        } catch (std::exception const & e) {
            env::track(false);
            setViolation("harness", e.what());
            g_res->phase = 4;
        }
        g_res->hash = run.log.h; g_res->steps = env::steps; g_res->simtime = run.simtime; g_res->nontrivial = run.nontrivial;
        std::fflush(stdout);
        _exit(g_res->phase == 1 ? 0 : 70);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
        run.log.h = g_res->hash; env::steps = g_res->steps; run.simtime = g_res->simtime; run.nontrivial = g_res->nontrivial;
        return;
    }
    if (g_res->phase == 1) {
        char b[64];
        if (WIFSIGNALED(st)) std::snprintf(b, sizeof b, "signal:%d", WTERMSIG(st)); else std::snprintf(b, sizeof b, "exit:%d", WEXITSTATUS(st));
        setViolation(b, "the process died inside a library call");
        g_res->phase = 3;
        g_res->hash = run.log.h;
    }
    std::fflush(stdout);
    _exit(70);
}

// ---- failure hooks ----------------------------------------------------------

static void onTerminate() {
    env::track(false);
    std::string what = "std::terminate";
    if (std::type_info * t = abi::__cxa_current_exception_type()) what += std::string(" with ") + t->name();
    setViolation("terminate", (what + " called (an exception escaped a function that must not throw, or a destructor)").c_str());
    if (g_res) g_res->phase = 3;
    _exit(70);
}
extern "C" {
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
void __asan_set_error_report_callback(void (*)(char const *));
void __sanitizer_set_death_callback(void (*)(void));
static void onAsan(char const * text) {
    // Keep the error type and the innermost library frames; addresses are dropped.
    std::string t = text, cls = "asan";
    size_t i = t.find("AddressSanitizer: ");
    if (i != std::string::npos) { size_t j = t.find_first_of(" \n", i + 18); cls = "asan:" + t.substr(i + 18, j - i - 18); }
    std::string d;
    size_t pos = 0; int frames = 0;
    while (frames < 6 && (pos = t.find(" in ", pos)) != std::string::npos) {
        size_t e = t.find('\n', pos);
        std::string f = t.substr(pos + 4, e - pos - 4);
        if (f.find("sphgeom") != std::string::npos) { size_t k = f.find(" /"); d += (d.empty() ? "" : " <- ") + f.substr(0, std::min<size_t>(k, 110)); ++frames; }
        pos = e == std::string::npos ? pos + 4 : e;
    }
    setViolation(cls.c_str(), d.c_str());
    if (g_res) g_res->phase = 3;
}
__attribute__((constructor)) static void installAsan() { __asan_set_error_report_callback(onAsan); }
char const * __asan_default_options() {
    return "detect_leaks=0:abort_on_error=0:exitcode=70:symbolize=0:handle_abort=1:allocator_may_return_null=1:"
           "detect_stack_use_after_return=0:quarantine_size_mb=8:print_summary=0:malloc_context_size=0:"
           "max_allocation_size_mb=512:detect_container_overflow=1:allocator_release_to_os_interval_ms=-1";
}
#endif
#endif
void __sanitizer_cov_trace_pc_guard_init(uint32_t * start, uint32_t * stop) {
    static uint32_t n = 0;
    if (start == stop || *start) return;
    for (uint32_t * x = start; x < stop; ++x) *x = ++n;
}
void __sanitizer_cov_trace_pc_guard(uint32_t * guard) {
    if (!g_cov) return;
    g_cov[*guard % COV_SLOTS] = 1;
    if (++env::steps > env::stepLimit && g_res) {
        env::stepLimit = ~0ull;
        setViolation("no-progress", "a library call did not finish within the step budget of the run");
        g_res->phase = 3;
        _exit(70);
    }
}
}

namespace {

struct Outcome {
    int status = 0;               // 0 ok, 1 violation, 2 harness error
    std::string cls, detail;
    u64 hash = 0, steps = 0, simtime = 0;
    bool nontrivial = false;
    std::map<std::string, u64> counters;
};

// Execute one plan in a fresh child.
Outcome runPlan(WorldInfo const & wi, Plan const & plan, bool verbose = false) {
    static Result * res = nullptr;
    if (!res) res = shared<Result>();
    // Only the header needs clearing.
    res->phase = 0; res->cls[0] = 0; res->detail[0] = 0; res->hash = res->steps = res->simtime = 0;
    res->nontrivial = 0; res->ncounters = 0;
    std::fflush(stdout);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); _exit(99); }
    if (pid == 0) {
        g_res = res;
        res->phase = 1;
        if (!verbose) { int fd = open("/dev/null", 2); if (fd >= 0) { dup2(fd, 2); } }
        std::set_terminate(onTerminate);
        rlimit rl{900, 900}; setrlimit(RLIMIT_CPU, &rl);
        rlimit core{0, 0}; setrlimit(RLIMIT_CORE, &core);
        alarm(240);   // backstop only; hangs are decided by the step budget
        Run run;
        run.verbose = verbose;
        g_run = &run;
        try {
            auto world = wi.make();
            env::steps = 0;
            env::stepLimit = world->stepBudget();
            world->execute(plan, run);
            env::stepLimit = ~0ull;
            res->phase = 2;
        } catch (Violation const & v) {
            env::track(false);
            setViolation(v.cls.c_str(), v.detail.c_str());
            res->phase = 3;
        } catch (std::exception const & e) {
            env::track(false);
            setViolation("harness", e.what());
            res->phase = 4;
        }
        res->hash = run.log.h; res->steps = env::steps; res->simtime = run.simtime; res->nontrivial = run.nontrivial;
        std::fflush(stdout);
        _exit(res->phase == 2 ? 0 : 70);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    Outcome o;
    o.hash = res->hash; o.steps = res->steps; o.simtime = res->simtime; o.nontrivial = res->nontrivial;
    for (int i = 0; i < res->ncounters; ++i) o.counters[res->counters[i].name] = res->counters[i].n;
    o.cls = res->cls; o.detail = res->detail;
    if (res->phase == 2 && WIFEXITED(st) && WEXITSTATUS(st) == 0) return o;
    if (res->phase == 4) { o.status = 2; return o; }
    o.status = 1;
    if (res->phase == 3) return o;
    // Died without saying why.
    char b[120];
    if (WIFSIGNALED(st)) { std::snprintf(b, sizeof b, "signal:%d", WTERMSIG(st)); o.cls = b; o.detail = "the process was killed by a signal inside a library call"; }
    else { std::snprintf(b, sizeof b, "exit:%d", WEXITSTATUS(st)); o.cls = b; if (o.detail.empty()) o.detail = "the process exited inside a library call"; }
    return o;
}

u64 runSeed(u64 seed, u64 index, char const * prop) {
    Hash h; h.u(seed); h.u(index); h.s(prop);
    return h.h;
}
Plan makePlan(WorldInfo const & wi, u64 seed, u64 index, bool thorough) {
    Rng rng(runSeed(seed, index, wi.property));
    return wi.make()->generate(rng, thorough);
}

// ---- minimisation -----------------------------------------------------------

struct Minimiser {
    WorldInfo const & wi;
    std::string cls;
    int tries = 0, maxTries;
    double deadline;
    bool fails(Plan const & p) {
        if (tries >= maxTries || now() > deadline) return false;
        ++tries;
        Outcome o = runPlan(wi, p);
        return o.status == 1 && o.cls == cls;
    }
    Plan minimise(Plan p) {
        // Delta debugging over operations.
        size_t chunk = std::max<size_t>(1, p.ops.size() / 2);
        while (true) {
            bool any = false;
            for (size_t i = 0; i < p.ops.size() && p.ops.size() > 1;) {
                Plan q;
                for (size_t j = 0; j < p.ops.size(); ++j) if (j < i || j >= i + chunk) q.ops.push_back(p.ops[j]);
                if (q.ops.size() < p.ops.size() && !q.ops.empty() && fails(q)) { p = q; any = true; } else i += chunk;
            }
            if (chunk == 1 && !any) break;
            if (chunk > 1) chunk = chunk / 2;
            if (tries >= maxTries || now() > deadline) break;
        }
        // Simplify arguments.
        auto w = wi.make();
        for (bool any = true; any && tries < maxTries;) {
            any = false;
            for (size_t i = 0; i < p.ops.size(); ++i) {
                std::vector<Op> cand = w->simpler(p.ops[i]);
                for (auto & c : cand) {
                    Plan q = p; q.ops[i] = c;
                    if (fails(q)) { p = q; any = true; break; }
                }
            }
        }
        return p;
    }
};

// ---- JSON helpers -----------------------------------------------------------

std::string js(std::string const & s) {
    std::string o = "\"";
    char b[8];
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { std::snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}

struct Slot { u64 hash; unsigned char status, nontrivial; };

int replayFile(std::string const & path, bool verbose, bool quiet = false) {
    std::ifstream f(path);
    if (!f) { std::fprintf(stderr, "cannot read %s\n", path.c_str()); return 2; }
    std::string line, prop, cls, hash;
    Plan plan;
    while (std::getline(f, line)) {
        std::istringstream is(line);
        std::string k; is >> k;
        if (k == "property") is >> prop;
        else if (k == "class") is >> cls;
        else if (k == "hash") is >> hash;
        else if (k == "op") { Op o; is >> o.name; std::string t; while (is >> t) o.a.push_back(std::strtoull(t.c_str(), nullptr, 16)); plan.ops.push_back(o); }
    }
    WorldInfo const * wi = nullptr;
    for (auto w = g_worlds; w; w = w->next) if (prop == w->property) wi = w;
    if (!wi) { std::fprintf(stderr, "no world for property '%s'\n", prop.c_str()); return 2; }
    Outcome o = runPlan(*wi, plan, verbose);
    char h[32]; std::snprintf(h, sizeof h, "%016llx", (unsigned long long)o.hash);
    if (o.status == 2) { std::printf("harness error: %s\n", o.detail.c_str()); return 2; }
    if (o.status == 0) { if (!quiet) std::printf("replay: property %s held (event log %s)\n", prop.c_str(), h); return 0; }
    bool same = o.cls == cls && (hash.empty() || hash == h);
    std::printf("replay: property %s violated: %s: %s (event log %s%s)\n", prop.c_str(), o.cls.c_str(), o.detail.c_str(), h,
                same ? ", as recorded" : ", DIFFERENT from the recorded failure");
    return same ? 1 : 3;
}

int usage() {
    std::fprintf(stderr, "usage: sphsim batch PROP SEED RUNS JOBS TIER OUT.json REPLAYDIR [TIMECAP] [KNOWN]\n"
                         "       sphsim replay [-v] FILE | plan PROP SEED INDEX TIER | hashes PROP SEED RUNS JOBS TIER\n");
    return 2;
}

} // namespace
} // namespace sim

using namespace sim;

int main(int argc, char ** argv) {
    // Addresses are part of the simulated environment: no random layout.
    int pers = personality(0xffffffff);
    if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC") && personality(pers | ADDR_NO_RANDOMIZE) != -1) {
        setenv("SIM_REEXEC", "1", 1);
        execv("/proc/self/exe", argv);
    }
    setvbuf(stdout, nullptr, _IOLBF, 0);
    g_states = shared<unsigned char>(STATE_SLOTS);
    g_cov = shared<unsigned char>(COV_SLOTS);
    if (argc < 2) return usage();
    std::string mode = argv[1];
    if (mode == "replay") {
        bool v = argc > 3 && !std::strcmp(argv[2], "-v");
        return replayFile(argv[argc - 1], v);
    }
    if (argc < 5) return usage();
    WorldInfo const * wi = nullptr;
    for (auto w = g_worlds; w; w = w->next) if (!std::strcmp(argv[2], w->property)) wi = w;
    if (!wi) { std::fprintf(stderr, "no world for %s\n", argv[2]); return 2; }
    u64 seed = std::strtoull(argv[3], nullptr, 10);
    if (mode == "plan") {
        u64 idx = std::strtoull(argv[4], nullptr, 10);
        bool th = argc > 5 && !std::strcmp(argv[5], "thorough");
        Plan p = makePlan(*wi, seed, idx, th);
        std::printf("property %s\nseed %llu index %llu\n%s", wi->property, (unsigned long long)seed, (unsigned long long)idx, p.text().c_str());
        Outcome o = runPlan(*wi, p, argc > 6);
        std::printf("# status %d class %s: %s hash %016llx steps %llu nontrivial %d\n", o.status, o.cls.c_str(), o.detail.c_str(), (unsigned long long)o.hash, (unsigned long long)o.steps, (int)o.nontrivial);
        for (auto & c : o.counters) std::printf("#   %s %llu\n", c.first.c_str(), (unsigned long long)c.second);
        return o.status;
    }
    if (argc < 7) return usage();
    u64 runs = std::strtoull(argv[4], nullptr, 10);
    int jobs = std::atoi(argv[5]);
    bool thorough = !std::strcmp(argv[6], "thorough");
    bool hashesOnly = mode == "hashes";
    std::string out = argc > 7 ? argv[7] : "/dev/null", replayDir = argc > 8 ? argv[8] : "/tmp";
    double cap = argc > 9 ? std::atof(argv[9]) : 1e9;
    // Known findings: lines "class|substring of detail"; they are reported but do not fail the batch.
    std::vector<std::pair<std::string, std::string>> known;
    if (argc > 10) { std::ifstream kf(argv[10]); std::string l; while (std::getline(kf, l)) { auto i = l.find('|'); if (i != std::string::npos) known.push_back({l.substr(0, i), l.substr(i + 1)}); } }
    auto isKnown = [&](std::string const & cls, std::string const & detail) {
        for (size_t i = 0; i < known.size(); ++i) if (known[i].first == cls && detail.find(known[i].second) != std::string::npos) return static_cast<int>(i);
        return -1;
    };

    double t0 = now();
    Slot * slots = shared<Slot>(runs + 1);
    auto * next = shared<std::atomic<u64>>();
    auto * stop = shared<std::atomic<int>>();
    auto * agg = shared<Result>(jobs);          // per-worker counter sums
    auto * sums = shared<u64>(jobs * 4);        // steps, simtime, runs, ops
    auto * knownHits = shared<std::atomic<u64>>(known.size() + 1);
    constexpr int MAXCAND = 64;
    struct Cand { u64 index; char cls[96]; char detail[1600]; };
    auto * cands = shared<Cand>(MAXCAND);
    auto * ncand = shared<std::atomic<int>>();
    std::vector<pid_t> workers;
    for (int w = 0; w < jobs; ++w) {
        pid_t pid = fork();
        if (pid == 0) {
            for (;;) {
                u64 i = next->fetch_add(1);
                if (i >= runs || stop->load() || now() - t0 > cap) break;
                Plan p = makePlan(*wi, seed, i, thorough);
                Outcome o = runPlan(*wi, p);
                slots[i].hash = o.hash; slots[i].status = 1 + o.status; slots[i].nontrivial = o.nontrivial;
                sums[w * 4] += o.steps; sums[w * 4 + 1] += o.simtime; sums[w * 4 + 2] += 1; sums[w * 4 + 3] += p.ops.size();
                for (auto & c : o.counters) {
                    Result & r = agg[w];
                    int j = 0;
                    for (; j < r.ncounters; ++j) if (c.first == r.counters[j].name) break;
                    if (j == r.ncounters) { if (j == MAX_COUNTERS) continue; ++r.ncounters; std::snprintf(r.counters[j].name, 56, "%s", c.first.c_str()); r.counters[j].n = 0; }
                    r.counters[j].n += c.second;
                }
                if (o.status) {
                    int k = o.status == 1 ? isKnown(o.cls, o.detail) : -1;
                    if (k >= 0) { knownHits[k].fetch_add(1); continue; }
                    int n = ncand->fetch_add(1);
                    if (n < MAXCAND) {
                        cands[n].index = i;
                        std::snprintf(cands[n].cls, 96, "%s", o.status == 2 ? "harness" : o.cls.c_str());
                        std::snprintf(cands[n].detail, 1600, "%s", o.detail.c_str());
                    }
                    if (n >= 16 && !hashesOnly) stop->store(1);
                }
            }
            _exit(0);
        }
        workers.push_back(pid);
    }
    bool bad = false;
    for (pid_t p : workers) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) bad = true; }
    if (bad) { std::fprintf(stderr, "sphsim: a worker died\n"); return 2; }
    double wall = now() - t0;
    if (hashesOnly) {
        for (u64 i = 0; i < runs; ++i) std::printf("%llu %016llx %d\n", (unsigned long long)i, (unsigned long long)slots[i].hash, slots[i].status);
        return 0;
    }

    u64 done = 0, nontrivial = 0, steps = 0, simtime = 0, ops = 0;
    std::set<u64> distinct;
    for (u64 i = 0; i < runs; ++i) if (slots[i].status) { ++done; if (slots[i].nontrivial && distinct.insert(slots[i].hash).second) ++nontrivial; }
    std::map<std::string, u64> counters;
    for (int w = 0; w < jobs; ++w) {
        steps += sums[w * 4]; simtime += sums[w * 4 + 1]; ops += sums[w * 4 + 3];
        for (int j = 0; j < agg[w].ncounters; ++j) counters[agg[w].counters[j].name] += agg[w].counters[j].n;
    }

    // Determinism gate: re-execute a sample and compare event logs.
    u64 rechecked = 0, diverged = 0;
    for (u64 k = 0; k < 24 && done; ++k) {
        u64 i = mix(seed * 977 + k) % runs;
        if (slots[i].status != 1) continue;
        ++rechecked;
        Outcome o = runPlan(*wi, makePlan(*wi, seed, i, thorough));
        if (o.hash != slots[i].hash || o.status) { ++diverged; std::fprintf(stderr, "sphsim: run %llu diverged on re-execution (%016llx vs %016llx, %s %s)\n", (unsigned long long)i, (unsigned long long)slots[i].hash, (unsigned long long)o.hash, o.cls.c_str(), o.detail.c_str()); }
    }

    // Violations: gate, minimise, write replay, replay in a fresh process.
    int nc = std::min(MAXCAND, ncand->load());
    std::vector<Cand> cs(cands, cands + nc);
    std::sort(cs.begin(), cs.end(), [](Cand const & a, Cand const & b) { return a.index < b.index; });
    int confirmed = 0, rejected = 0, harnessErrors = 0;
    std::string vjson;
    std::set<std::string> seen;
    for (auto & c : cs) {
        if (!std::strcmp(c.cls, "harness")) { ++harnessErrors; std::fprintf(stderr, "sphsim: harness error in run %llu: %s\n", (unsigned long long)c.index, c.detail); continue; }
        if (!seen.insert(c.cls).second) continue;
        if (confirmed >= 3) continue;
        Plan p = makePlan(*wi, seed, c.index, thorough);
        Outcome a = runPlan(*wi, p), b = runPlan(*wi, p);
        if (a.status != 1 || b.status != 1 || a.cls != b.cls || a.hash != b.hash || a.cls != c.cls) {
            ++rejected;
            std::fprintf(stderr, "sphsim: violation of run %llu (%s) did not reproduce identically (%s/%s)\n", (unsigned long long)c.index, c.cls, a.cls.c_str(), b.cls.c_str());
            continue;
        }
        Minimiser m{*wi, a.cls, 0, thorough ? 1500 : 600, now() + 90};
        Plan q = m.minimise(p);
        Outcome fin = runPlan(*wi, q);
        if (fin.status != 1 || fin.cls != a.cls) { q = p; fin = a; }
        char path[512];
        std::snprintf(path, sizeof path, "%s/%s-%llu-%llu.replay", replayDir.c_str(), wi->property, (unsigned long long)seed, (unsigned long long)c.index);
        {
            std::ofstream f(path);
            char h[32]; std::snprintf(h, sizeof h, "%016llx", (unsigned long long)fin.hash);
            f << "# sphsim replay v1: " << q.ops.size() << " operations (from " << p.ops.size() << "), run with: sphsim replay -v FILE\n"
              << "property " << wi->property << "\nseed " << seed << " index " << c.index << "\nclass " << fin.cls << "\nhash " << h
              << "\n# " << fin.detail << "\n" << q.text();
        }
        // Fresh process.
        std::string cmd = std::string("'") + argv[0] + "' replay '" + path + "' > /dev/null 2>&1";
        int rc = std::system(cmd.c_str());
        if (!WIFEXITED(rc) || WEXITSTATUS(rc) != 1) { ++rejected; std::fprintf(stderr, "sphsim: replay of %s in a fresh process did not fail the same way\n", path); continue; }
        ++confirmed;
        std::printf("VIOLATION property=%s replay=%s\n", wi->property, path);
        std::printf("  %s: %s\n  seed %llu, run %llu, minimised from %zu to %zu operations in %d executions\n", fin.cls.c_str(), fin.detail.c_str(),
                    (unsigned long long)seed, (unsigned long long)c.index, p.ops.size(), q.ops.size(), m.tries);
        vjson += (vjson.empty() ? "" : ",") + std::string("{\"class\":") + js(fin.cls) + ",\"detail\":" + js(fin.detail) + ",\"replay\":" + js(path) + "}";
    }

    u64 nstates = 0, ncov = 0;
    for (size_t i = 0; i < STATE_SLOTS; ++i) nstates += g_states[i];
    for (size_t i = 0; i < COV_SLOTS; ++i) ncov += g_cov[i];
    std::ofstream f(out);
    f << "{\"runs\":" << done << ",\"requested\":" << runs << ",\"distinct_nontrivial\":" << nontrivial << ",\"ops\":" << ops
      << ",\"library_steps\":" << steps << ",\"simtime\":" << simtime << ",\"distinct_states\":" << nstates << ",\"state_slots\":" << STATE_SLOTS
      << ",\"library_edges\":" << ncov << ",\"wall_s\":" << wall << ",\"rechecked\":" << rechecked << ",\"diverged\":" << diverged
      << ",\"confirmed\":" << confirmed << ",\"rejected\":" << rejected << ",\"harness_errors\":" << harnessErrors
      << ",\"rule\":" << js(wi->rule) << ",\"real\":" << js(wi->real) << ",\"stub\":" << js(wi->stub) << ",\"state_measure\":" << js(wi->stateMeasure)
      << ",\"counters\":{";
    bool first = true;
    for (auto & c : counters) { f << (first ? "" : ",") << js(c.first) << ":" << c.second; first = false; }
    f << "},\"known_hits\":[";
    for (size_t i = 0; i < known.size(); ++i) f << (i ? "," : "") << knownHits[i].load();
    f << "],\"violations\":[" << vjson << "],\"samples\":[";
    int ns = 0;
    for (u64 i = 0; i < runs && ns < 3; ++i) {
        if (slots[i].status != 1 || !slots[i].nontrivial) continue;
        std::string t = makePlan(*wi, seed, i, thorough).text();
        if (t.size() > 4000 && i + 1 < runs && i < 200) continue;
        if (t.size() > 4000) t = t.substr(0, 4000) + "...";
        char h[32]; std::snprintf(h, sizeof h, "%016llx", (unsigned long long)slots[i].hash);
        f << (ns ? "," : "") << "{\"run\":" << i << ",\"event_log\":\"" << h << "\",\"plan\":" << js(t) << "}";
        ++ns;
    }
    f << "]}\n";
    if (confirmed) return 1;
    if (diverged || rejected || harnessErrors) return 2;
    return 0;
}
