// C38: every call does a bounded amount of work, whatever came before.
//
// The library is compiled with a callback on every basic block; blocks executed (and bytes moved by memcpy and its kin,
// allocations) are the work of a call.  What a call may need is learnt from short histories: every call first in a
// freshly loaded library, then every two calls.  No call of any longer history may need more than twice that.
#include <pthread.h>
#include <csetjmp>
#include <unordered_map>
#include "calls.hpp"
#include "cold.hpp"

#define EXP extern "C" __attribute__((visibility("default")))
constexpr uint64_t CEILING = 2000000;  // blocks a single call may ever need: 20 ms frames at 100 MHz
static thread_local uint64_t work = 0;
static thread_local sigjmp_buf out_of_it;
static thread_local bool armed = false;
static void spent(uint64_t n) {
    work += n;
    if (work > 40 * CEILING && armed) { armed = false; siglongjmp(out_of_it, 1); }
}
EXP void __sanitizer_cov_trace_pc(void) { spent(1); }
EXP void* __wrap_memcpy(void* d, const void* s, size_t n) { spent(n / 16); return memcpy(d, s, n); }
EXP void* __wrap_memmove(void* d, const void* s, size_t n) { spent(n / 16); return memmove(d, s, n); }
EXP void* __wrap_memset(void* d, int c, size_t n) { spent(n / 16); return memset(d, c, n); }
EXP void* __wrap_malloc(size_t n) { spent(50); return malloc(n); }
EXP void* __wrap_calloc(size_t a, size_t b) { spent(50 + a * b / 16); return calloc(a, b); }
EXP void* __wrap_aligned_alloc(size_t al, size_t n) { spent(50); return aligned_alloc(al, n); }
EXP int __wrap_posix_memalign(void** q, size_t al, size_t n) { spent(50); return posix_memalign(q, al, n); }
EXP void* __wrap_realloc(void* p, size_t n) { spent(50 + n / 16); return realloc(p, n); }
EXP void __wrap_free(void* p) { spent(20); free(p); }
EXP size_t __wrap_strlen(const char* s) { size_t n = strlen(s); spent(n / 16); return n; }
EXP int __wrap_nanosleep(const timespec*, timespec*) { spent(CEILING + 1); return 0; }
EXP int __wrap_usleep(unsigned) { spent(CEILING + 1); return 0; }
EXP int __wrap_sched_yield() { spent(100); return 0; }

static const char* builds[2] = {"count", "countsimd"};
static uint64_t allowed[2];
static uint64_t seen_max[2];
// calls whose work hardly depends on the state have a bound of their own
static bool own_bound(const std::string& n) {
    for (const char* p : {"initialise", "seed", "move", "use last", "silence", "comfort noise", "tone", "D-STAR tone", "to 16 bit", "samples of", "version", "codes", "layout", "Golay word", "ever new seed", "ever new tone", "ever new samples"})
        if (!n.compare(0, strlen(p), p)) return true;
    return false;
}
// operations that make several calls
static bool several(const std::string& n) { return n == "state elsewhere" || n == "ever new parameters" || n == "ever new words"; }
static std::unordered_map<const Op*, uint64_t> own[2];
struct History { Lib* L; int v; std::function<const Op*(int)> op; long n; bool judge; uint64_t base, most; const State* from; std::string err; };
static void* thread_main(void* q) {
    History& H = *(History*)q;
    State s;
    init(*H.L, s);
    if (H.from) s = *H.from;
    for (volatile long i = 0; i < H.n && H.err.empty(); i = i + 1) {
        const Op* o = H.op((int)i);
        tick = (uint64_t)i + H.base;
        work = 0;
        if (sigsetjmp(out_of_it, 0)) { H.err = "call " + std::to_string(i) + " (" + o->name + ") does not come to an end"; break; }
        armed = true;
        o->f(*H.L, s);
        armed = false;
        uint64_t w = work;
        H.most = std::max(H.most, w);
        auto it = own[H.v].find(o);
        if (!H.judge && own_bound(o->name)) { uint64_t& m = it == own[H.v].end() ? own[H.v][o] : it->second; m = std::max(m, w); }
        if (H.judge && it != own[H.v].end() && w > it->second * 4 + 2000) H.err = "call " + std::to_string(i) + " (" + o->name + ") takes " + std::to_string(w) + " blocks, in a short history " + std::to_string(it->second);
        if (w > CEILING) H.err = "call " + std::to_string(i) + " (" + o->name + ") takes " + std::to_string(w) + " blocks";
        else if (H.judge && w > allowed[H.v] * (several(o->name) ? 3 : 1)) H.err = "call " + std::to_string(i) + " (" + o->name + ") takes " + std::to_string(w) + " blocks, no call of a short history takes more than " + std::to_string(seen_max[H.v]);
    }
    mc::transitions(H.n);
    if (H.judge) mc::state(mc::hash(&s, sizeof s, H.v));
    return nullptr;
}
static uint64_t run(int v, const std::string& what, long n, std::function<const Op*(int)> op, bool judge = true, uint64_t base = 0, const State* from = nullptr) {
    History H{&lib(builds[v]), v, op, n, judge, base, 0, from, ""};
    pthread_t t;
    if (pthread_create(&t, nullptr, thread_main, &H)) { fprintf(stderr, "no thread\n"); exit(2); }
    pthread_join(t, nullptr);
    if (judge) mc::traces();
    if (!H.err.empty()) {
        if (!judge) { allowed[v] = 0; return CEILING + 1; }
        mc::fail("%s: %s", what.c_str(), H.err.c_str());
    }
    return H.most;
}
static void check() {
    static std::vector<Op> odd;  // arguments from the ends of their ranges
    if (ops.empty()) {
        build();
        build_fresh();
        auto add = [&](const std::string& n, std::function<void(Lib&, State&)> f) { odd.push_back({n, f}); };
        for (uint32_t sd : {0u, 1u, 2u, 0x7fffffffu, 0x80000000u, 0xfffffffeu, 0xffffffffu}) add("seed " + std::to_string(sd), [sd](Lib& L, State&) { L.f_setThreadRngSeed(sd); L.f_synthesizeComfortNoisef(fbuf); });
        for (int id : {INT32_MIN, -1000000, -1, 0, 4, 5, 122, 123, 511, 65536, INT32_MAX}) add("D-STAR tone " + std::to_string(id), [id](Lib& L, State& s) { char d[49] = {0}; L.f_synthesizeTonefdstar(fbuf, d, &s.cur, id); });
        for (int ph : {INT32_MIN, INT32_MIN + 1, -1, 0, 1, 1 << 30, INT32_MAX}) add("tone at phase " + std::to_string(ph), [ph](Lib& L, State& s) { char d[49]; Bits b = a2450_tone(133, 70); for (int i = 0; i < 49; ++i) d[i] = (char)b.b[i]; mbe_parms m = s.cur; m.swn = ph; L.f_synthesizeTonef(fbuf, d, &m); });
        for (float x : {0.f, 1e-45f, -1e-38f, 1e30f, -3e38f, INFINITY, -INFINITY}) add("samples of " + std::to_string(x), [x](Lib& L, State&) { float f[160]; for (float& y : f) y = x; L.f_floattoshort(f, sbuf); });
        for (int uq : {INT32_MIN, -1, 0, 64, 1000000, INT32_MAX}) add("quality " + std::to_string(uq), [uq](Lib& L, State& s) { mbe_parms m = s.enh, q = s.enh; L.f_synthesizeSpeechf(fbuf, &m, &q, uq); });
        for (long w : {0L, -1L, 0x7fffffL, 1L << 22, (long)0x8000000000000000ull}) add("Golay word " + std::to_string(w), [w](Lib& L, State&) { long g = w; L.f_checkGolayBlock(&g); });
    }
    size_t NO = ops.size(), NE = evops.size(), NX = odd.size(), N = NO + NE + NX, NF = fresh.size();
    auto all = [&](size_t k) { return k < NO ? &ops[k] : k < NO + NE ? &evops[k - NO] : k < N ? &odd[k - NO - NE] : &fresh[k - N]; };
    static bool learnt = false;
    if (!learnt) {
        learnt = true;
        for (int v = 0; v < 2; ++v) {
            Cold cold(lib(builds[v]));
            uint64_t m = 0;
            for (size_t a = 0; a < N + NF; ++a) {
                cold.restore();
                const Op *p = all(a), *q = all((a * 11 + 1) % N);
                m = std::max(m, run(v, p->name, 4, [&](int k) { return k & 1 ? q : p; }, false));
            }
            cold.restore();
            // and a model of every size and voicing
            for (int b0 = 0; b0 < 208; ++b0)
                for (int k = 0; k < 3; ++k) {
                    Ev e = make(IMBE_D, imbe_bits(b0, k - 1, 30, 40 + b0), 0, 0, 0, "pitch");
                    Op o{"pitch " + std::to_string(b0), [&](Lib& L, State& s) { Out x; step(L, e, s, x, k == 1); }};
                    m = std::max(m, run(v, o.name, 2, [&](int) { return &o; }, false));
                }
            // unusual arguments of a small call need no more than usual ones
            uint64_t small = 0;
            for (auto& o : ops) if (own_bound(o.name)) small = std::max(small, own[v][&o]);
            for (auto& o : odd) if (own_bound(o.name)) own[v][&o] = small;
            for (auto& o : fresh) if (own_bound(o.name)) own[v][&o] = small;
            seen_max[v] = m;
            allowed[v] = m + m / 2 + 2000;
            if (!mc::worker) mc::count(v ? "blocks-simd" : "blocks", m);
        }
    }
    for (int v = 0; v < 2; ++v) {
        std::string pre = v ? "simd-" : "";
        mc::group((pre + "short").c_str(), 1, [&](uint64_t) {
            if (seen_max[v] > CEILING) mc::fail("some call of a short history takes more than %llu blocks", (unsigned long long)CEILING);
        });
        // every two calls, then every few others
        mc::group((pre + "triples").c_str(), N * N, [&](uint64_t i) {
            const Op *p = all(i / N), *q = all(i % N);
            std::vector<const Op*> h;
            for (size_t c = i % 11; c < N; c += mc::thorough ? 1 : v ? 44 : 11) { h.push_back(p); h.push_back(q); h.push_back(all(c)); }
            run(v, p->name + " > " + q->name + " > others, again and again", (long)h.size(), [&](int k) { return h[k]; });
            if (i == 321) mc::sample("%s > %s > every eleventh call: none takes longer than a call of a short history may", p->name.c_str(), q->name.c_str());
        });
        // every pitch after every pitch, from every kind of history
        mc::group((pre + "pitches").c_str(), 208, [&](uint64_t i) {
            for (int c = 0; c < 3; ++c)
                for (int b = 0; b < (c ? 120 : 208); b += mc::thorough ? 1 : v ? 9 : 3) {
                    auto ev = [&](int b0, int k) { return c == 0 ? make(IMBE_D, imbe_bits(b0, k & 1, -1, 100 + k), 0, k & 2 ? 5 : 0, 0, "pitch") : c == 1 ? make(A2450_D, a2450_bits(b0 % 120, k & 15, 31 - (k & 3), 100 + k), 0, k & 3, 0, "pitch") : make(A2400_D, a2400_bits(b0 % 120, k & 15, 60 - (k & 3), 100 + k), 0, k & 3, 0, "pitch"); };
                    Ev e = ev((int)i, b), f = ev(b, (int)i);
                    Op o[2] = {{"pitch " + std::to_string(i), [&](Lib& L, State& s) { Out x; step(L, e, s, x); }}, {"pitch " + std::to_string(b), [&](Lib& L, State& s) { Out x; step(L, f, s, x, true); }}};
                    run(v, "pitches in turn", 6, [&](int k) { return &o[k & 1]; });
                }
        });
        // states at the far ends: error rates, repeats, thresholds, phases and oscillators as long streams leave them
        mc::group((pre + "far").c_str(), 64, [&](uint64_t i) {
            State s;
            init(lib(builds[v]), s);
            for (mbe_parms* m : {&s.cur, &s.prev, &s.enh}) {
                m->repeat = m->repeatCount = i & 1 ? 3 : 0;
                m->errorRate = i & 2 ? 0.42f : 0.01f;
                m->errorCountTotal = i & 2 ? 20 : 0;
                m->amplitudeThreshold = i & 4 ? INT32_MAX : 1;
                m->localEnergy = i & 8 ? 3e36f : 10000;
                for (int l = 0; l <= 56; ++l) { m->PSIl[l] = i & 16 ? 5900.f + l : 0; m->PHIl[l] = i & 16 ? -5900.f - l : 0; if (i & 32) m->Ml[l] = 1e9f, m->log2Ml[l] = 30; }
                m->swn = i & 16 ? INT32_MAX : 0;
            }
            for (size_t a = 0; a < N; ++a) {
                const Op *p = all(a), *q = all((a * 5 + i) % N);
                run(v, "far state " + std::to_string(i), 4, [&](int k) { return k & 1 ? q : p; }, true, 0, &s);
            }
        });
        // every call alone, any two in turn, everything mixed, arguments that never repeat: for a long time
        long longrun = mc::thorough ? 1000000 : v ? 5000 : 25000;
        mc::group((pre + "long").c_str(), N + NF, [&](uint64_t i) {
            run(v, all(i)->name + " over and over", longrun * (own_bound(all(i)->name) ? 4 : 1), [&](int) { return all(i); }, true, 7000000 * (i + 1));
        });
        mc::group((pre + "mixed").c_str(), 48, [&](uint64_t k) {
            run(v, "stream " + std::to_string(k), longrun, [&](int i) { return all((i * (k + 1) + i / 7 + i / 1000) % (N + NF)); }, true, 90000000 + k);
        });
        mc::group((pre + "alternating").c_str(), N * N, [&](uint64_t i) {
            if (i / N == i % N) return;
            run(v, all(i / N)->name + " / " + all(i % N)->name + " in turn", mc::thorough ? 20000 : v ? 12 : 45, [&](int k) { return k % 3 == 2 ? all(i / N) : all(i % N); });
        });
        // thread after thread
        mc::group((pre + "threads").c_str(), mc::thorough ? 64 : 24, [&](uint64_t i) {
// the same three calls in every thread: no later thread needs more for them than the first did
            uint64_t early = 0;
            for (int t = 0; t < (mc::thorough ? 20000 : 1500); ++t) {
                uint64_t w = run(v, "thread " + std::to_string(t), 3, [&](int k) { return all((i * 37 + k) % (N + NF)); });
                if (t < 20) early = std::max(early, w);
                else if (w > early + early / 20 + 200) mc::fail("thread %d takes %llu blocks for a call, the first threads took %llu", t, (unsigned long long)w, (unsigned long long)early);
            }
        });
    }
}
int main(int c, char** v) { for (auto n : builds) lib(n); return mc::main(c, v, check); }
