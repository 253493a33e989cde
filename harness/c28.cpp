// C28: every pattern of allocation failures.
//
// The library's allocation calls are resolved here.  Each run is a stream on a thread of its own whose allocations fail
// as the schedule says; a second copy of the library, whose allocations never fail, takes each step from the same state.
#include <pthread.h>
#include "sm_events.hpp"

#define EXP extern "C" __attribute__((visibility("default")))
struct Fault {
    std::function<bool(int)> fails;  // does the n-th allocation of this thread fail?
    int n = 0, failed = 0, bad_free = 0, frame = 0, pos = 0;
    std::vector<std::pair<char*, size_t>> live;
    bool armed = false;
};
static thread_local Fault* F;

static void* take(size_t n, size_t align = 16) {
    if (!F || !F->armed) return aligned_alloc(64, (n + 127) / 64 * 64);
    bool no = F->fails(F->n++);
    F->pos++;
    if (no) { F->failed++; return nullptr; }
    char* p = (char*)aligned_alloc(std::max<size_t>(64, align), (n + 127) / 64 * 64);
    memset(p, 0xA5 + F->n, n);  // never the same twice
    F->live.push_back({p, n});
    return p;
}
static void give(void* p) {
    if (!p) return;
    if (F)
        for (size_t i = 0; i < F->live.size(); ++i)
            if (F->live[i].first == p) {
                memset(p, 0xDD, F->live[i].second);
                F->live.erase(F->live.begin() + i);
                free(p);
                return;
            }
    if (F && F->armed) { F->bad_free++; return; }
    free(p);
}
EXP void* __wrap_malloc(size_t n) { return take(n); }
EXP void* __wrap_calloc(size_t a, size_t b) { void* p = take(a * b); if (p) memset(p, 0, a * b); return p; }
EXP void* __wrap_aligned_alloc(size_t al, size_t n) { return take(n, al); }
EXP int __wrap_posix_memalign(void** q, size_t al, size_t n) { void* p = take(n, al); if (!p) return 12; *q = p; return 0; }
EXP void* __wrap_realloc(void* p, size_t n) {
    void* q = take(n);
    if (!q) return nullptr;
    if (p && F) for (auto& b : F->live) if (b.first == p) memcpy(q, p, std::min(n, b.second));
    give(p);
    return q;
}
EXP void __wrap_free(void* p) { give(p); }
EXP int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { return pthread_mutex_lock(m); }
EXP int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { return pthread_mutex_unlock(m); }
EXP int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { return pthread_mutex_trylock(m); }
EXP int __wrap_pthread_once(pthread_once_t* o, void (*f)()) { return pthread_once(o, f); }
EXP void __wrap_call_once(void* o, void (*f)()) { pthread_once((pthread_once_t*)o, f); }
EXP int __wrap_mtx_lock(void* m) { return pthread_mutex_lock((pthread_mutex_t*)m); }
EXP int __wrap_mtx_unlock(void* m) { return pthread_mutex_unlock((pthread_mutex_t*)m); }

struct Stream { std::string name; std::vector<Ev> ev; };
static std::vector<Stream> streams;
static int full_live[2], max_live[2], allocs[2];  // blocks a thread holds once everything succeeded, allocations it took

// the voiced part alone of the frame that led from `pre` to `post`
static bool voiced_only(Lib& B, const State& pre, const State& post, uint32_t seed, float* out, short* out16) {
    for (const mbe_parms* from : {&pre.cur, &pre.prev, &pre.enh}) {
        mbe_parms m = post.enh, q = pre.enh;
        m.noiseSeed = from->noiseSeed;
        memcpy(m.noiseOverlap, from->noiseOverlap, sizeof m.noiseOverlap);
        for (mbe_parms* x : {&m, &q}) {
            for (int l = 0; l < 57; ++l) if (!x->Vl[l]) x->Ml[l] = 0;
            memset(x->previousUw, 0, sizeof x->previousUw);
        }
        m.amplitudeThreshold = q.amplitudeThreshold;
        B.f_setThreadRngSeed(seed);
        B.f_synthesizeSpeechf(out, &m, &q, 3);
        if (memcmp(m.PHIl + 1, post.enh.PHIl + 1, 56 * sizeof(float)) || memcmp(&m.noiseSeed, &post.enh.noiseSeed, sizeof m.noiseSeed)) continue;
        B.f_floattoshort(out, out16);
        return true;
    }
    return false;
}
static std::string but_uw(const mbe_parms& a, const mbe_parms& w, const State& pre, const char* who) {
    mbe_parms x = a;
    memcpy(x.previousUw, w.previousUw, sizeof x.previousUw);
    if (memcmp(&x, &w, sizeof x)) { std::string d = sm::diff(x, w, who); return d.empty() ? std::string(who) + " differs" : d; }
    for (const mbe_parms* p : {&w, &pre.cur, &pre.prev, &pre.enh}) if (!memcmp(a.previousUw, p->previousUw, sizeof a.previousUw)) return "";
    return std::string(who) + ".previousUw is neither the frame's nor an earlier one";
}

struct Job {
    Lib *A, *B;
    int v;
    const Stream* st;
    bool s16;
    uint32_t seed;
    int frames;
    std::function<bool(int)> fails;
    std::string err, sched;
    int nallocs, nfailed, nlive, clean_after;
    uint64_t nvoiced = 0, ndegraded = 0, hash = 0;
    Fault fault;
};
static std::string run_stream(Job& J, Fault& f) {
    Lib &A = *J.A, &B = *J.B;
    State s;
    init(A, s);
    int fr = 0;
    J.clean_after = 0;
    for (; fr < J.frames; ++fr) {
        const Ev& e = J.st->ev[fr % J.st->ev.size()];
        State pre = s, w = s;
        Out o, p;
        memset(&o, 0, sizeof o);
        memset(&p, 0, sizeof p);
        auto at = [&] { return J.st->name + (J.s16 ? " (16 bit)" : "") + ", " + J.sched + ", frame " + std::to_string(fr) + " " + e.name + ": "; };
        int before = f.failed;
        if (!(fr & 1)) A.f_setThreadRngSeed(J.seed + fr);
        f.armed = true;
        f.frame = fr;
        f.pos = 0;
        step(A, e, s, o, J.s16);
        f.armed = false;
        bool failed = f.failed != before;
        J.clean_after = failed ? 0 : J.clean_after + 1;
        if (f.bad_free) return at() + "freed a block it does not own";
        if ((int)f.live.size() > max_live[J.v]) return at() + "holds " + std::to_string(f.live.size()) + " blocks, " + std::to_string(max_live[J.v]) + " are needed";
        // the second copy's generators follow the same calls
        if (!(fr & 1)) B.f_setThreadRngSeed(J.seed + fr);
        step(B, e, w, p, J.s16);
        if (o.errs != p.errs || o.errs2 != p.errs2 || strcmp(o.str, p.str) || memcmp(o.d, p.d, sizeof o.d)) return at() + "status \"" + o.str + "\" / " + std::to_string(o.errs) + " / " + std::to_string(o.errs2) + ", expected \"" + p.str + "\" / " + std::to_string(p.errs) + " / " + std::to_string(p.errs2);
        bool same = J.s16 ? !memcmp(o.pcm16, p.pcm16, sizeof o.pcm16) : !memcmp(o.pcm, p.pcm, sizeof o.pcm);
        if (!J.s16) for (int i = 0; i < 160; ++i) if (!std::isfinite(o.pcm[i]) || std::fabs(o.pcm[i]) > 4500) return at() + "sample " + std::to_string(i) + " is " + std::to_string(o.pcm[i]);
        if (!failed) {
            if (!same) return at() + "memory was available but the samples are not those of an undisturbed decoder in the same state";
            if (memcmp(&s, &w, sizeof s)) { std::string d = sm::diff(s, w); return at() + "memory was available but " + (d.empty() ? "the state differs" : d); }
        } else {
            J.ndegraded++;
            std::string d = but_uw(s.cur, w.cur, pre, "cur");
            if (d.empty()) d = but_uw(s.prev, w.prev, pre, "prev");
            if (d.empty()) d = but_uw(s.enh, w.enh, pre, "prev_enhanced");
            if (!d.empty()) return at() + d;
            if (!same && strchr(o.str, 'M')) return at() + "a muted frame needs no memory, but its samples differ";
            bool clean = e.total == 0 && pre.prev.errorRate == 0 && pre.enh.errorRate == 0 && !strpbrk(o.str, "TEM");
            if (!same && clean) {
                float v[160];
                short v16[160];
                if (!voiced_only(B, pre, w, J.seed + (fr & ~1), v, v16)) mc::count("voiced-part-not-judged");
                else {
                    J.nvoiced++;
                    // the second copy's comfort generator was reseeded: bring the first along
                    A.f_setThreadRngSeed(J.seed + (fr & ~1));
                    for (int i = 0; i < 160; ++i)
                        if (J.s16 ? std::abs(o.pcm16[i] - v16[i]) > 1 : std::fabs(o.pcm[i] - v[i]) > 1e-3 + 2e-5 * std::fabs(v[i]))
                            return at() + "sample " + std::to_string(i) + " is " + std::to_string(J.s16 ? (double)o.pcm16[i] : o.pcm[i]) + ", its voiced part is " + std::to_string(J.s16 ? (double)v16[i] : v[i]);
                }
            }
        }
        mc::transitions(2);
        mc::state(mc::hash(&s, sizeof s, f.live.size() * 64 + f.n));
    }
    return "";
}
static void* thread_main(void* q) {
    Job& J = *(Job*)q;
    Fault& f = J.fault;
    f.fails = J.fails;
    F = &f;
    J.err = run_stream(J, f);
    J.nallocs = f.n;
    J.nfailed = f.failed;
    J.nlive = (int)f.live.size();
    return nullptr;  // what the library releases when a thread ends still passes through give()
}
static bool calibrated = false;
static void judge(int v, const Stream& st, bool s16, int frames, std::function<bool(int)> fails, const std::string& sched, bool complete = true, Job* out = nullptr) {
    Job J;
    J.A = &lib(v ? "faultsimd" : "fault");
    J.B = &lib(v ? "faultsimd2" : "fault2");
    J.v = v; J.st = &st; J.s16 = s16; J.seed = 77; J.frames = frames; J.fails = fails; J.sched = sched;
    pthread_t t;
    if (pthread_create(&t, nullptr, thread_main, &J)) { fprintf(stderr, "no thread\n"); exit(2); }
    pthread_join(t, nullptr);
    if (calibrated) for (auto& b : J.fault.live) free(b.first);  // the thread is gone; what all threads share was there before
    mc::traces();
    if (J.nfailed) mc::count("runs-with-failures");
    mc::count("degraded-frames", J.ndegraded);
    mc::count("voiced-parts-judged", J.nvoiced);
    if (!J.err.empty()) mc::fail("%s", J.err.c_str());
    if (complete && J.nlive && J.clean_after > 1 && J.nlive != full_live[v]) mc::fail("%s, %s: memory returned, %d blocks are held, %d are needed", st.name.c_str(), sched.c_str(), J.nlive, full_live[v]);
    if (out) *out = J;
}
static std::string bits_of(uint32_t m, int n) { std::string s; for (int i = 0; i < n; ++i) s += m >> i & 1 ? 'x' : '.'; return s; }

static void build() {
    auto imb = [](int b0, int v, int g, int base) { return make(IMBE_D, imbe_bits(b0, v, g, base), 0, 0, 0, "b0=" + std::to_string(b0)); };
    Ev unv = imb(110, 0, 30, 12), voi = imb(60, 1, 30, 11), mix = imb(90, -1, 30, 13), low = imb(0, -1, 28, 14), big = imb(207, -1, 26, 15);
    Ev badi = make(IMBE_D, imbe_bits(208, -1, -1, 15), 0, 0, 0, "b0=208"), noisy = make(IMBE_D, mix.d, 0, 9, 0, "noisy"), err = make(IMBE_D, mix.d, 0, 5, 0, "errors");
    Ev f72 = make(IMBE72_F, mix.d, 1, 3, 0, "mixed"), f71 = make(IMBE71_F, unv.d, 0, 0, 0, "unvoiced");
    streams.push_back({"imbe mixed", {mix, unv, voi, low, big, mix}});
    streams.push_back({"imbe voiced first", {voi, voi, mix, mix, unv, big}});
    streams.push_back({"imbe errors", {err, mix, noisy, badi, mix, noisy, unv}});
    streams.push_back({"imbe muted", {badi, badi, badi, badi, badi, mix, unv, mix}});
    streams.push_back({"imbe frames", {f72, f71, f72, f71, f72}});
    auto a5 = [](int b0, int b1, int g, int base) { return make(A2450_D, a2450_bits(b0, b1, g, base), 0, 0, 0, "b0=" + std::to_string(b0)); };
    Ev am = a5(50, 9, 17, 23), au = a5(30, 16, 15, 24), av = a5(80, 0, 16, 25), er = make(A2450_D, a2450_erasure(120, 26), 0, 0, 0, "erasure"), to = make(A2450_D, a2450_tone(133, 70), 0, 0, 0, "tone"),
       ub = make(A2450_D, a2450_tone(0, 50), 0, 0, 0, "tone-bad"), ae = make(A2450_D, am.d, 0, 5, 0, "noisy"), si = a5(124, 0, 6, 24), af = make(A2450_F, am.d, 1, 2, 0, "mixed");
    streams.push_back({"ambe2450 mixed", {am, au, av, am, si, au}});
    streams.push_back({"ambe2450 concealment", {ae, am, er, au, to, ub, am, ae, ae, ae, ae, am}});
    streams.push_back({"ambe2450 frames", {af, af, ub, af, af}});
    auto a4 = [](int b0, int b1, int g, int base) { return make(A2400_D, a2400_bits(b0, b1, g, base), 0, 0, 0, "b0=" + std::to_string(b0)); };
    Ev dm = a4(60, 9, 30, 33), du = a4(20, 14, 28, 34), dv = a4(100, 0, 30, 35), dt = make(A2400_D, a2400_tone(40), 0, 0, 0, "tone"), dx = make(A2400_D, a2400_tone(140), 0, 0, 0, "bad-tone"), de = make(A2400_D, dm.d, 0, 5, 0, "noisy"), df = make(A2400_F, du.d, 2, 3, 0, "mixed");
    streams.push_back({"ambe2400 mixed", {dm, du, dv, dm, du, df}});
    streams.push_back({"ambe2400 concealment", {de, dm, dt, du, dx, dm, de, de, de, de, dm, df}});
    streams.push_back({"codec change", {mix, am, dm, unv, au, du}});
    for (int v = 0; v < 2; ++v) {
        max_live[v] = 1 << 20;
        int most = 0;
        // nothing fails: how many blocks does a thread need?  The first pass may also allocate what all threads share.
        for (int pass = 0; pass < 2; ++pass)
            for (auto& s : streams) {
                Job J;
                judge(v, s, false, 12, [](int) { return false; }, "no failure", false, &J);
                if (&s == &streams[0]) allocs[v] = std::max(pass ? allocs[v] : 0, J.nallocs), full_live[v] = J.nlive, most = std::max(most, J.nlive);
                if (&s == &streams[0] && !pass) max_live[v] = J.nlive;
            }
        max_live[v] = most;
    }
    calibrated = true;
}
static void check() {
    if (streams.empty()) build();
    int N = (int)streams.size();
    for (int v = 0; v < 2; ++v) {
        std::string pre = v ? "simd-" : "";
        int D = mc::thorough ? (v ? 18 : 20) : (v ? 11 : 13);
        // every pattern over the first D allocations
        mc::group((pre + "patterns").c_str(), N * 2 << 9, [&](uint64_t i) {
            const Stream& st = streams[(i >> 9) % N];
            bool s16 = (i >> 9) / N;
            for (uint32_t hi = 0; hi < 1u << (D - 9); ++hi) {
                uint32_t m = (uint32_t)(i & 511) | hi << 9;
                judge(v, st, s16, 6, [m, D](int n) { return n < D && m >> n & 1; }, "failures " + bits_of(m, D));
            }
            if (i == 700) mc::sample("%s: every pattern of failures over the first %d allocations", st.name.c_str(), D);
        });
        // single failures, pairs, prefixes, suffixes, windows and periodic failures over longer streams
        int M = 60;
        mc::group((pre + "windows").c_str(), N * M, [&](uint64_t i) {
            const Stream& st = streams[i / M];
            int a = (int)(i % M);
            for (int b = a; b < M; ++b) {
                judge(v, st, b & 1, 14, [a, b](int n) { return n == a || n == b; }, "allocations " + std::to_string(a) + " and " + std::to_string(b) + " fail");
                judge(v, st, !(b & 1), 14, [a, b](int n) { return n >= a && n <= b; }, "allocations " + std::to_string(a) + ".." + std::to_string(b) + " fail");
                judge(v, st, b & 1, 14, [a, b](int n) { return n <= a || n == b; }, "allocations up to " + std::to_string(a) + " and " + std::to_string(b) + " fail");
            }
            judge(v, st, a & 1, 40, [a](int n) { return n >= a; }, "every allocation from " + std::to_string(a) + " fails", false);
        });
        // failing for ever at one point of every attempt, then recovering
        mc::group((pre + "periodic").c_str(), N * 12, [&](uint64_t i) {
            const Stream& st = streams[i / 12];
            int per = 1 + (int)(i % 12);
            for (int ph = 0; ph < per; ++ph)
                for (int len : {5, 30, 200, mc::thorough ? 3000 : 300})
                    judge(v, st, ph & 1, len / 4 + 20, [per, ph, len](int n) { return n < len && n % per == ph; }, "every " + std::to_string(per) + "th allocation of " + std::to_string(len) + " from " + std::to_string(ph) + " fails", false);
        });
        // memory is short during chosen frames only: every subset of the first frames, every failing position
        int FR = mc::thorough ? 12 : 8;
        mc::group((pre + "frames").c_str(), N << FR, [&](uint64_t i) {
            const Stream& st = streams[i >> FR];
            uint32_t m = (uint32_t)(i & ((1u << FR) - 1));
            for (int k = 0; k < std::max(1, allocs[v]); ++k) {
                auto sub = [m, FR](int f) { return f < FR && m >> f & 1; };
                judge(v, st, k & 1, FR + 4, [sub, k](int) { return sub(F->frame) && F->pos == k; }, "in frames " + bits_of(m, FR) + " allocation " + std::to_string(k) + " of the frame fails");
                judge(v, st, !(k & 1), FR + 4, [sub, k](int) { return sub(F->frame) && F->pos >= k; }, "in frames " + bits_of(m, FR) + " allocations from " + std::to_string(k) + " of the frame fail");
            }
        });
    }
}
int main(int c, char** v) { for (auto n : {"fault", "fault2", "faultsimd", "faultsimd2"}) lib(n); return mc::main(c, v, check); }
