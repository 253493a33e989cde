// Exhaustive-enumeration driver shared by every check.
//
// A check is a function run_check() that names the cases it explores, each of them an index into a
// finite space (mc::group) or an explicit key (mc::one).  The driver forks one worker per core; case i
// of a group belongs to worker i mod n, so every run explores the same cases in the same order.  A
// failed case stops its worker, is executed again alone in a fresh process, and only then reported.
#pragma once
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <atomic>
#include <cerrno>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <functional>
#include <string>
#include <regex.h>
#include <unistd.h>
#include <vector>

namespace mc {

constexpr int MAXW = 64, MAXC = 64, MAXS = 24, KEY = 2048, MSG = 3072;

struct WorkerSlot {
    char key[KEY];
    std::atomic<double> since;  // monotonic time at which the current case began (0: none)
    int failed;
    int crashed;
    char msg[MSG];
};

struct Shared {
    std::atomic<uint64_t> transitions, traces, cases, states, capped, table_full;
    std::atomic<uint64_t> counters[MAXC];
    char cname[MAXC][48];
    std::atomic<int> ncounters;
    char samples[MAXS][768];
    std::atomic<int> nsamples;
    std::atomic<int> stop;
    WorkerSlot w[MAXW];
    std::atomic<int> lock;
};

inline Shared* S = nullptr;
inline std::atomic<uint64_t>* table = nullptr;
inline uint64_t table_mask = 0;
inline int worker = 0, nworkers = 1;
inline std::string only;           // replay: run only this case
inline bool only_hit = false;
inline std::string tier = "quick";
inline bool thorough = false;
inline double t0 = 0, deadline = 1e18, case_limit = 60;
inline uint64_t local_trans = 0;
inline WorkerSlot* slot = nullptr;
inline std::string cur_group;

inline double now() {
    timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

struct Fail {};
struct Stop {};

[[noreturn]] inline void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
inline void fail(const char* fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(slot->msg, MSG, fmt, ap);
    va_end(ap);
    throw Fail{};
}
#define MC_CHECK(cond, ...) \
    do {                    \
        if (!(cond))        \
            mc::fail(__VA_ARGS__); \
    } while (0)

inline uint64_t mix(uint64_t x) {
    x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ULL; x ^= x >> 27; x *= 0x94d049bb133111ebULL; x ^= x >> 31;
    return x;
}
inline uint64_t hash(const void* p, size_t n, uint64_t h = 0x9E3779B97F4A7C15ULL) {
    const unsigned char* b = (const unsigned char*)p;
    while (n >= 8) { uint64_t v; memcpy(&v, b, 8); h = mix(h ^ v) + 0x9E3779B97F4A7C15ULL; b += 8; n -= 8; }
    uint64_t v = 0;
    if (n) memcpy(&v, b, n);
    return mix(h ^ v ^ ((uint64_t)n << 56));
}
// Adds h to the set of distinct states shared by all workers; true when it was new.
inline bool state(uint64_t h) {
    if (h == 0) h = 1;
    uint64_t i = mix(h) & table_mask;
    for (int probe = 0; probe < 4096; ++probe, i = (i + 1) & table_mask) {
        uint64_t cur = table[i].load(std::memory_order_relaxed);
        if (cur == h) return false;
        if (cur == 0) {
            uint64_t expect = 0;
            if (table[i].compare_exchange_strong(expect, h)) { S->states.fetch_add(1, std::memory_order_relaxed); return true; }
            if (expect == h) return false;
        }
    }
    S->table_full.fetch_add(1);
    return true;
}
inline void transitions(uint64_t n = 1) { local_trans += n; }
inline void traces(uint64_t n = 1) { S->traces.fetch_add(n, std::memory_order_relaxed); }
inline void count(const char* name, uint64_t n = 1) {
    int k = S->ncounters.load();
    for (int i = 0; i < k; ++i)
        if (!strcmp(S->cname[i], name)) { S->counters[i].fetch_add(n, std::memory_order_relaxed); return; }
    int z = 0;
    while (!S->lock.compare_exchange_weak(z, 1)) z = 0;
    k = S->ncounters.load();
    int i;
    for (i = 0; i < k; ++i) if (!strcmp(S->cname[i], name)) break;
    if (i == k && k < MAXC) { snprintf(S->cname[i], sizeof S->cname[i], "%s", name); S->ncounters.store(k + 1); }
    S->lock.store(0);
    if (i < MAXC) S->counters[i].fetch_add(n, std::memory_order_relaxed);
}
inline void sample(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
inline void sample(const char* fmt, ...) {
    if (S->nsamples.load() >= MAXS) return;
    int i = S->nsamples.fetch_add(1);
    if (i >= MAXS) { S->nsamples.store(MAXS); return; }
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(S->samples[i], sizeof S->samples[i], fmt, ap);
    va_end(ap);
}

inline void flush() { if (local_trans) { S->transitions.fetch_add(local_trans); local_trans = 0; } }

// Is this case listed in known-findings.txt?  (run.py hands over the listed key patterns, one per line)
inline bool known(const std::string& key) {
    const char* e = getenv("MBE_KNOWN");
    while (e && *e) {
        const char* n = strchr(e, '\n');
        std::string one = "^(" + std::string(e, n ? n - e : strlen(e)) + ")$";
        regex_t r;
        if (!regcomp(&r, one.c_str(), REG_EXTENDED | REG_NOSUB)) {
            bool hit = !regexec(&r, key.c_str(), 0, nullptr, 0);
            regfree(&r);
            if (hit) return true;
        }
        e = n ? n + 1 : nullptr;
    }
    return false;
}

// Runs one named case on this worker.
template <class F> inline void run_case(const std::string& key, F&& f) {
    if (S->stop.load(std::memory_order_relaxed)) throw Stop{};
    if (now() > deadline) { S->capped.fetch_add(1); return; }
    snprintf(slot->key, KEY, "%s", key.c_str());
    slot->since.store(now());
    try {
        f();
        S->cases.fetch_add(1, std::memory_order_relaxed);
    } catch (Fail&) {
        if (known(key)) {
            count("known-findings");
        } else {
            slot->failed = 1;
            S->stop.store(1);
            flush();
            throw Stop{};
        }
    }
    slot->since.store(0);
    flush();
}

// cases 0..n-1 of a group; worker i takes i mod nworkers (spread by a fixed stride against patterns)
template <class F> inline void group(const char* name, uint64_t n, F&& f) {
    if (!only.empty()) {
        std::string pre = std::string(name) + ":";
        if (only.compare(0, pre.size(), pre) == 0) {
            uint64_t i = strtoull(only.c_str() + pre.size(), nullptr, 10);
            if (i < n) { only_hit = true; run_case(only, [&] { f(i); }); }
        }
        return;
    }
    for (uint64_t i = 0; i < n; ++i)
        if ((int)(mix(i * 2654435761u + 12345) % (uint64_t)nworkers) == worker)
            run_case(std::string(name) + ":" + std::to_string(i), [&] { f(i); });
}
// a single case with an explicit key, run by the worker that owns `owner`
template <class F> inline void one(const std::string& key, uint64_t owner, F&& f) {
    if (!only.empty()) { if (only == key) { only_hit = true; run_case(key, f); } return; }
    if ((int)(owner % (uint64_t)nworkers) == worker) run_case(key, f);
}

inline void on_signal(int sig, siginfo_t*, void*) {
    if (slot) {
        if (!slot->failed) snprintf(slot->msg, MSG, "process died of signal %d (%s) in this case", sig, strsignal(sig));
        slot->failed = 1;
        slot->crashed = 1;
        S->stop.store(1);
    }
    _exit(77);
}

inline std::string json(const std::string& s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}

inline bool sanitized() {
#if defined(__SANITIZE_ADDRESS__)
    return true;
#else
    return false;
#endif
}

inline void worker_body(int w, const std::function<void()>& check) {
    worker = w;
    slot = &S->w[w];
    static char alt[65536];
    stack_t ss{};
    ss.ss_sp = alt; ss.ss_size = sizeof alt;
    if (!sanitized()) {
        sigaltstack(&ss, nullptr);
        struct sigaction sa{};
        sa.sa_sigaction = on_signal;
        sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
        for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(s, &sa, nullptr);
    }
    try { check(); } catch (Stop&) {} catch (Fail&) {
        slot->failed = 1; if (!slot->key[0]) snprintf(slot->key, KEY, "setup");
    }
    slot->since.store(0);
    flush();
    fflush(nullptr);
    _exit(slot->failed ? 3 : 0);
}

// forks n workers and waits; returns index of a failed worker or -1
inline int launch(int n, const std::function<void()>& check, double limit) {
    nworkers = n;
    std::vector<pid_t> pid(n);
    for (int i = 0; i < n; ++i) {
        fflush(nullptr);
        pid[i] = fork();
        if (pid[i] == 0) worker_body(i, check);
    }
    int live = n, bad = -1;
    double stopped = 0;
    while (live) {
        int st;
        pid_t p = waitpid(-1, &st, WNOHANG);
        if (p > 0) {
            for (int i = 0; i < n; ++i)
                if (pid[i] == p) {
                    pid[i] = 0; --live;
                    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
                        WorkerSlot& s = S->w[i];
                        if (!s.failed) {
                            s.failed = 1; s.crashed = 1;
                            if (!s.msg[0]) snprintf(s.msg, MSG, "process ended abnormally (%s %d) in this case",
                                     WIFSIGNALED(st) ? "signal" : "exit status", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
                        }
                        S->stop.store(1);
                        if (bad < 0) bad = i;
                    }
                }
            continue;
        }
        double t = now();
        for (int i = 0; i < n; ++i)
            if (pid[i]) {
                double s = S->w[i].since.load();
                if (s > 0 && t - s > limit) {
                    S->w[i].failed = 1; S->w[i].crashed = 2;
                    snprintf(S->w[i].msg, MSG, "case did not finish within %.0f s", limit);
                    S->stop.store(1);
                    kill(pid[i], SIGKILL);
                }
            }
        if (S->stop.load()) {
            if (!stopped) stopped = t;
            if (t - stopped > 30) for (int i = 0; i < n; ++i) if (pid[i]) kill(pid[i], SIGKILL);
        }
        usleep(live ? 2000 : 0);
    }
    if (bad < 0) for (int i = 0; i < n; ++i) if (S->w[i].failed) bad = i;
    return bad;
}

inline void reset_slots() { for (int i = 0; i < MAXW; ++i) { S->w[i].failed = S->w[i].crashed = 0; S->w[i].since.store(0); S->w[i].key[0] = S->w[i].msg[0] = 0; } S->stop.store(0); }

inline int main(int argc, char** argv, const std::function<void()>& check) {
    int n = (int)sysconf(_SC_NPROCESSORS_ONLN);
    double budget = 0;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--tier" && i + 1 < argc) tier = argv[++i];
        else if (a == "--case" && i + 1 < argc) only = argv[++i];
        else if (a == "--workers" && i + 1 < argc) n = atoi(argv[++i]);
        else if (a == "--budget" && i + 1 < argc) budget = atof(argv[++i]);
        else if (a == "--case-limit" && i + 1 < argc) case_limit = atof(argv[++i]);
    }
    thorough = tier == "thorough";
    if (n < 1) n = 1;
    if (n > 16) n = 16;
    t0 = now();
    if (budget > 0) deadline = t0 + budget;
    S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    uint64_t sz = 1ULL << (thorough ? 28 : 26);
    table = (std::atomic<uint64_t>*)mmap(nullptr, sz * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (S == MAP_FAILED || table == MAP_FAILED) { perror("mmap"); return 2; }
    table_mask = sz - 1;
    struct rlimit rl{0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    bool replay = !only.empty();
    int bad = launch(replay ? 1 : n, check, case_limit);
    std::string key, msg;
    int reproduced = 0, attempts = 0;
    if (bad >= 0) {
        key = S->w[bad].key; msg = S->w[bad].msg;
        if (!replay) {
            // replay before report: alone, in a fresh process, with a longer limit
            uint64_t tr = S->transitions, cs = S->cases, st = S->states, tc = S->traces;
            for (attempts = 1; attempts <= 2 && !reproduced; ++attempts) {
                reset_slots();
                only = key;
                int b = launch(1, check, case_limit * 4);
                if (b >= 0) { reproduced = 1; msg = S->w[b].msg; }
            }
            if (!reproduced) {
                // the failure may depend on the cases run before it on that worker: run its whole share again
                reset_slots();
                only.clear();
                nworkers = n;
                pid_t p = fork();
                if (p == 0) { worker_body(bad, check); }
                int wst;
                while (waitpid(p, &wst, 0) < 0 && errno == EINTR) {}
                if (S->w[bad].failed || !(WIFEXITED(wst) && WEXITSTATUS(wst) == 0)) {
                    reproduced = 2; if (S->w[bad].msg[0]) { msg = S->w[bad].msg; key = S->w[bad].key; }
                }
            }
            S->transitions = tr; S->cases = cs; S->states = st; S->traces = tc;
        } else reproduced = 1;
    }
    flush();
    std::string o = "{\"tier\":" + json(tier) + ",\"workers\":" + std::to_string(n);
    auto num = [&](const char* k, uint64_t v) { o += std::string(",\"") + k + "\":" + std::to_string(v); };
    num("states", S->states); num("transitions", S->transitions); num("traces", S->traces);
    num("cases", S->cases); num("capped", S->capped); num("table_full", S->table_full);
    o += ",\"counters\":{";
    for (int i = 0; i < S->ncounters; ++i)
        o += std::string(i ? "," : "") + json(S->cname[i]) + ":" + std::to_string(S->counters[i].load());
    o += "},\"samples\":[";
    int ns = S->nsamples; if (ns > MAXS) ns = MAXS;
    for (int i = 0; i < ns; ++i) o += std::string(i ? "," : "") + json(S->samples[i]);
    o += "],\"seconds\":" + std::to_string(now() - t0);
    if (bad >= 0) {
        o += ",\"violation\":{\"key\":" + json(key) + ",\"message\":" + json(msg) + ",\"reproduced\":" + std::to_string(reproduced) + "}";
    }
    o += "}";
    printf("\nMCRESULT %s\n", o.c_str());
    fflush(stdout);
    return bad >= 0 && reproduced ? 1 : 0;
}
}  // namespace mc
