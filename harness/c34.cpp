// C34: what the library holds stays bounded, whatever the history.
//
// The library's allocation calls are resolved here and counted.  Every history runs on a thread of its own.
#include <dirent.h>
#include <unistd.h>
#include <pthread.h>
#include <unordered_map>
#include "calls.hpp"

#define EXP extern "C" __attribute__((visibility("default")))
static std::unordered_map<void*, size_t> blocks;  // one history at a time in each worker
static size_t live, peak, nalloc;
static void* got(void* p, size_t n) {
    if (p) { blocks[p] = n; live += n; nalloc++; peak = std::max(peak, live); }
    return p;
}
static void gone(void* p) {
    auto it = blocks.find(p);
    if (it != blocks.end()) { live -= it->second; blocks.erase(it); }
    free(p);
}
EXP void* __wrap_malloc(size_t n) { return got(malloc(n), n); }
EXP void* __wrap_calloc(size_t a, size_t b) { return got(calloc(a, b), a * b); }
EXP void* __wrap_aligned_alloc(size_t al, size_t n) { return got(aligned_alloc(al, n), n); }
EXP int __wrap_posix_memalign(void** q, size_t al, size_t n) { int r = posix_memalign(q, al, n); if (!r) got(*q, n); return r; }
EXP void* __wrap_realloc(void* p, size_t n) {
    auto it = blocks.find(p);
    if (it != blocks.end()) { live -= it->second; blocks.erase(it); }
    return got(realloc(p, n), n);
}
EXP void __wrap_free(void* p) { if (p) gone(p); }
EXP int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { return pthread_mutex_lock(m); }
EXP int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { return pthread_mutex_unlock(m); }
EXP int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { return pthread_mutex_trylock(m); }
EXP int __wrap_pthread_once(pthread_once_t* o, void (*f)()) { return pthread_once(o, f); }
EXP void __wrap_call_once(void* o, void (*f)()) { pthread_once((pthread_once_t*)o, f); }
EXP int __wrap_mtx_lock(void* m) { return pthread_mutex_lock((pthread_mutex_t*)m); }
EXP int __wrap_mtx_unlock(void* m) { return pthread_mutex_unlock((pthread_mutex_t*)m); }

static size_t need[2], most;
static std::vector<std::pair<size_t, size_t>> grown[2];  // bytes, blocks at six points of the calibrating history
struct Run { Lib* L; int v; const char* what; std::string (*name)(void*); std::function<const Op*(int)> op; int n; bool judge; std::string err; uint64_t base; };
static void* thread_main(void* q) {
    Run& R = *(Run*)q;
    State s;
    init(*R.L, s);
    for (int i = 0; i < R.n && R.err.empty(); ++i) {
        const Op* o = R.op(i);
        tick = (uint64_t)i + R.base;
        o->f(*R.L, s);
        if (!R.judge) most = std::max(most, live);
        if (R.judge && live > need[R.v]) R.err = "call " + std::to_string(i) + " (" + o->name + "): " + std::to_string(live) + " bytes in " + std::to_string(blocks.size()) + " blocks are held, " + std::to_string(need[R.v]) + " by a thread that has used everything";
    }
    mc::transitions(R.n);
    if (R.judge) mc::state(mc::hash(&s, sizeof s, live));
    return nullptr;
}
static bool calibrated = false;
static void forget() {  // blocks of a thread that has ended; what all threads share was allocated while calibrating and stays
    if (calibrated) for (auto& b : blocks) free(b.first);
    blocks.clear();
    live = peak = 0;
}
static bool keep_blocks = false;
static std::string run(int v, int n, std::function<const Op*(int)> op, bool judge = true, uint64_t base = 0) {
    Run R{&lib(v ? "faultsimd" : "fault"), v, "", nullptr, op, n, judge, "", base};
    pthread_t t;
    if (pthread_create(&t, nullptr, thread_main, &R)) { fprintf(stderr, "no thread\n"); exit(2); }
    pthread_join(t, nullptr);
    mc::traces();
    if (!keep_blocks) forget();
    return R.err;
}
static void must(const std::string& err, const std::string& h) { if (!err.empty()) mc::fail("%s: %s", h.c_str(), err.c_str()); }
static int count_dir(const char* p) { int n = 0; if (DIR* d = opendir(p)) { while (readdir(d)) n++; closedir(d); } return n; }

static void check() {
    if (ops.empty()) {
        build();
        build_fresh();
        // what does one thread need that has used everything for a long time?
        for (int v = 0; v < 2; ++v) {
            most = 0;
            keep_blocks = true;
            size_t N = ops.size() + evops.size();
            run(v, 60001, [&](int i) {
                if (i >= 30000 && i % 6000 == 0) grown[v].push_back({live, blocks.size()});
                if (i & 1) return &fresh[(i / 2) % fresh.size()];
                size_t k = (i / 2 + i / 2 / N * 7) % N;
                return k < ops.size() ? &ops[k] : &evops[k - ops.size()];
            }, false);
            need[v] = most;
            if (!mc::worker) mc::count(v ? "bytes-held-simd" : "bytes-held", most), mc::count(v ? "blocks-held-simd" : "blocks-held", grown[v].empty() ? 0 : grown[v].back().second);
            keep_blocks = false;
            forget();
        }
        calibrated = true;
    }
    size_t NE = evops.size(), NO = ops.size(), N = NE + NO, NF = fresh.size();
    auto all = [&](size_t k) { return k < NO ? &ops[k] : &evops[k - NO]; };
    for (int v = 0; v < 2; ++v) {
        std::string pre = v ? "simd-" : "";
        // the calibrating history itself reaches a level it keeps
        mc::group((pre + "steady").c_str(), 1, [&](uint64_t) {
            bool up = true;
            for (int k = 1; k < 6; ++k) up = up && grown[v][k].first > grown[v][k - 1].first && grown[v][k].second >= grown[v][k - 1].second + 2;
            if (up) mc::fail("a mixture of every call never reaches a level: %zu bytes in %zu blocks after 30000 calls, %zu in %zu after 60000", grown[v][0].first, grown[v][0].second, grown[v][5].first, grown[v][5].second);
            mc::transitions(60000);
            mc::traces();
        });
        // every sequence of three calls, each on a new thread
        mc::group((pre + "triples").c_str(), N * N, [&](uint64_t i) {
            size_t a = i / N, b = i % N;
            for (size_t c = mc::thorough ? 0 : i % (v ? 16 : 5); c < N; c += mc::thorough ? 1 : v ? 16 : 5) {
                const Op* s[3] = {all(a), all(b), all(c)};
                must(run(v, 3, [&](int k) { return s[k]; }), s[0]->name + " > " + s[1]->name + " > " + s[2]->name);
            }
            if (i == 77) mc::sample("%s > %s > every third call, each on a new thread", all(a)->name.c_str(), all(b)->name.c_str());
        });
        // any two calls, over and over
        int reps = mc::thorough ? 3000 : v ? 20 : 40;
        mc::group((pre + "cycles").c_str(), N * N, [&](uint64_t i) {
            size_t a = i / N, b = i % N;
            must(run(v, 2 * reps, [&](int k) { return all(k & 1 ? b : a); }), all(a)->name + " and " + all(b)->name + " alternating");
        });
        // any call amid frames of every codec, over and over
        mc::group((pre + "amid").c_str(), NO * NO, [&](uint64_t i) {
            size_t a = i / NO, b = i % NO;
            must(run(v, 4 * reps, [&](int k) { return k % 4 == 0 ? &ops[a] : k % 4 == 2 ? &ops[b] : &evops[(k * 7 + i) % NE]; }), ops[a].name + " and " + ops[b].name + " amid frames");
        });
        // long streams
        mc::group((pre + "long").c_str(), 48, [&](uint64_t k) {
            int n = mc::thorough ? 400000 : 12000;
            must(run(v, n, [&](int i) { return all((i * (k + 1) + i / 7 + i / 1000) % N); }), "stream " + std::to_string(k));
        });
        // calls that never repeat: as many different arguments as there are calls
        mc::group((pre + "ever-new").c_str(), NF + 8, [&](uint64_t k) {
            int n = mc::thorough ? 300000 : v ? 6000 : 12000;
            must(run(v, n, [&](int i) { return k < NF ? &fresh[k] : &fresh[(i / (k - NF + 1) + i) % NF]; }, true, 1000000 * (k + 1)), k < NF ? fresh[k].name : "ever new calls, mixture " + std::to_string(k - NF));
            if (k == 1) mc::sample("%d frames, no two alike in payload, error count and quality", n);
        });
        // thread after thread: what ended threads leave behind is no more than each held alive
        for (int when = 0; when < 2; ++when)
            mc::group((pre + (when ? "ended-threads-residue" : "ended-threads")).c_str(), when ? 4 : N, [&](uint64_t i) {
                keep_blocks = true;
                int T = mc::thorough ? 200 : 12;
                int fds = count_dir("/proc/self/fd"), tasks = count_dir("/proc/self/task");
                std::string err;
                size_t first = 0;
                for (int t = 0; t < T && err.empty(); ++t) {
                    run(v, 5, [&](int k) { return all((i + k * (t % 3)) % N); }, false);
                    if (live > need[v] * (t + 1)) err = std::to_string(t + 1) + " ended threads left " + std::to_string(live) + " bytes, a thread needs " + std::to_string(need[v]);
                    if (when && live) err = "an ended thread left " + std::to_string(live) + " bytes in " + std::to_string(blocks.size()) + " blocks";
                }
                // a joined thread may still show in /proc for a moment
                for (int k = 0; k < 2000 && count_dir("/proc/self/task") > tasks; ++k) usleep(1000);
                if (err.empty() && (count_dir("/proc/self/fd") != fds || count_dir("/proc/self/task") > tasks)) err = "descriptors or threads are left open";
                keep_blocks = false;
                forget();
                must(err, "threads that begin with " + all(i)->name);
            });
    }
}
int main(int c, char** v) { for (auto n : {"fault", "faultsimd"}) lib(n); return mc::main(c, v, check); }
