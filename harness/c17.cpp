// C17: a controlled scheduler over the instrumented library.
//
// The library is compiled with thread instrumentation, but the calls that instrumentation makes are resolved here.
// Threads run one at a time; at every library function entry and exit, every atomic or lock operation and every access
// to memory that more than one thread can see and some thread wrote, the schedule may hand over to another thread.
// Every schedule runs in a process of its own, so that each one contains the first use of the library.
// Accesses are ordered by happens-before (locks, once, acquire/release); two unordered accesses to one byte, one of
// them a write, are a violation whatever the schedule, and every thread's results must equal those it gets alone.
#include <link.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/syscall.h>
#include <algorithm>
#include "sm_events.hpp"

constexpr int MAXPROG = 512, MT = 3, MAXOP = 12, MAXSW = 4;
struct Sw { int point, to; };
struct RunRes {
    int done, points, race, nops[MT], stuck;
    uint64_t out[MT][MAXOP];
    char what[400];
    uint64_t accesses, shared;
};
static RunRes* RR;  // shared with the child

// ---- runtime -----------------------------------------------------------------------------------
namespace rt {
struct Th { char *slo, *shi, *tlo, *thi; sem_t sem; bool fin; uint32_t vc[MT]; int spin; };
static Th th[MT];
static int n, cur, points, nsw, swi;
static Sw sw[MAXSW];
static bool active;
static thread_local int me = -1;
struct Cell { uintptr_t a; uint16_t clk[MT][4]; uint8_t mask[MT][4]; bool written; };  // kinds: plain read, plain write, atomic read, atomic write
static Cell* tab;
constexpr size_t TAB = 1 << 16;
static struct { char *lo, *hi; } ro[16];  // read-only segments of the library: nobody can write there
static int nro;
struct Sync { uintptr_t a; uint32_t vc[MT]; };
static Sync syn[4096];

static void hand(int to) {
    if (to == cur) return;
    int self = me;
    cur = to;
    sem_post(&th[to].sem);
    sem_wait(&th[self].sem);
}
static int next_live(int from) { for (int k = 1; k <= n; ++k) { int t = (from + k) % n; if (!th[t].fin) return t; } return -1; }
static void point() {
    if (me < 0 || !active) return;
    int p = points++;
    if (points > 3000000) { RR->stuck = 1; _exit(9); }
    if (swi < nsw && sw[swi].point == p) {
        int to = sw[swi++].to;
        if (!th[to].fin && to != me) hand(to);
    }
}
// the thread cannot go on until another one does
static void blocked() { int t = next_live(me); ++points; if (points > 3000000 || t < 0 || t == me) { RR->stuck = 1; _exit(9); } hand(t); }
static Sync& sync_of(uintptr_t a) {
    size_t i = mc::mix(a) & 4095;
    while (syn[i].a && syn[i].a != a) i = (i + 1) & 4095;
    syn[i].a = a;
    return syn[i];
}
static void acquire(uintptr_t a) { Sync& s = sync_of(a); for (int t = 0; t < MT; ++t) th[me].vc[t] = std::max(th[me].vc[t], s.vc[t]); }
static void release(uintptr_t a) { Sync& s = sync_of(a); for (int t = 0; t < MT; ++t) s.vc[t] = std::max(s.vc[t], th[me].vc[t]); ++th[me].vc[me]; }
static Cell& cell(uintptr_t a) {
    size_t i = (mc::mix(a >> 12) * 512 + (a >> 3 & 511)) & (TAB - 1);
    while (tab[i].a && tab[i].a != a) i = (i + 1) & (TAB - 1);
    tab[i].a = a;
    return tab[i];
}
static void report(uintptr_t a, int other, const char* k1, const char* k2) {
    if (RR->race) return;
    RR->race = 1;
    Dl_info d;
    char sym[160] = "";
    if (dladdr((void*)a, &d) && d.dli_fname) snprintf(sym, sizeof sym, " (%s+0x%lx%s%s)", strrchr(d.dli_fname, '/') ? strrchr(d.dli_fname, '/') + 1 : d.dli_fname, (long)(a - (uintptr_t)d.dli_fbase), d.dli_sname ? " " : "", d.dli_sname ? d.dli_sname : "");
    else snprintf(sym, sizeof sym, " (heap, or another thread's memory)");
    snprintf(RR->what, sizeof RR->what, "thread %d %s and thread %d %s the same memory without synchronisation%s", other, k1, me, k2, sym);
}
static void touch8(uintptr_t w, uint8_t mask, int kind) {
    Cell& c = cell(w);
    static const char* nm[4] = {"reads", "writes", "atomically reads", "atomically writes"};
    for (int t = 0; t < n; ++t) {
        if (t == me) continue;
        for (int k = 0; k < 4; ++k) {
            if (!(k & 1) && !(kind & 1)) continue;          // two reads
            if (k >= 2 && kind >= 2) continue;              // two atomics
            if ((c.mask[t][k] & mask) && c.clk[t][k] > th[me].vc[t]) report(w, t, nm[k], nm[kind]);
        }
    }
    c.clk[me][kind] = th[me].vc[me];
    c.mask[me][kind] |= mask;
    if (kind & 1) c.written = true;
    if (c.written) {
        bool other = false;
        for (int t = 0; t < n; ++t) if (t != me) for (int k = 0; k < 4; ++k) if (c.mask[t][k]) other = true;
        ++RR->shared;
        if (other) point();
    }
}
static inline void access(const void* p, size_t sz, int kind) {
    if (me < 0 || !active) return;
    ++RR->accesses;
    char* a = (char*)p;
    Th& t = th[me];
    if ((a >= t.slo && a < t.shi) || (a >= t.tlo && a < t.thi)) return;
    if (!(kind & 1)) for (int i = 0; i < nro; ++i) if (a >= ro[i].lo && a < ro[i].hi) return;
    uintptr_t x = (uintptr_t)a, e = x + sz;
    while (x < e) {
        uintptr_t w = x & ~7ull;
        uintptr_t hi = std::min<uintptr_t>(e, w + 8);
        uint8_t m = 0;
        for (uintptr_t b = x; b < hi; ++b) m |= 1 << (b - w);
        touch8(w, m, kind);
        x = hi;
    }
}
}  // namespace rt
#define EXP extern "C" __attribute__((visibility("default"), used))
EXP void __tsan_init() {}
EXP void __tsan_func_entry(void*) { rt::point(); }
EXP void __tsan_func_exit() { rt::point(); }
#define RW(n) \
    EXP void __tsan_read##n(void* p) { rt::access(p, n, 0); } \
    EXP void __tsan_write##n(void* p) { rt::access(p, n, 1); } \
    EXP void __tsan_unaligned_read##n(void* p) { rt::access(p, n, 0); } \
    EXP void __tsan_unaligned_write##n(void* p) { rt::access(p, n, 1); } \
    EXP void __tsan_read_write##n(void* p) { rt::access(p, n, 1); } \
    EXP void __tsan_unaligned_read_write##n(void* p) { rt::access(p, n, 1); } \
    EXP void __tsan_volatile_read##n(void* p) { rt::access(p, n, 0); } \
    EXP void __tsan_volatile_write##n(void* p) { rt::access(p, n, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
EXP void __tsan_read_range(void* p, size_t n) { rt::access(p, n, 0); }
EXP void __tsan_write_range(void* p, size_t n) { rt::access(p, n, 1); }
EXP void __tsan_vptr_update(void**, void*) {}
EXP void __tsan_vptr_read(void**) {}
EXP void* __tsan_memcpy(void* d, const void* s, size_t n) { rt::access(s, n, 0); rt::access(d, n, 1); return memcpy(d, s, n); }
EXP void* __tsan_memmove(void* d, const void* s, size_t n) { rt::access(s, n, 0); rt::access(d, n, 1); return memmove(d, s, n); }
EXP void* __tsan_memset(void* d, int c, size_t n) { rt::access(d, n, 1); return memset(d, c, n); }
// sequentially consistent execution is exact here: one thread runs at a time.  mo: 0 relaxed .. 5 seq_cst
static void at_pre(volatile void* p, size_t n, int kind) {
    if (rt::me < 0 || !rt::active) return;
    if (++rt::th[rt::me].spin > 2000) { rt::th[rt::me].spin = 0; rt::blocked(); } else rt::point();
    rt::access((void*)p, n, kind);
}
static void at_acq(volatile void* p, int mo) { if (rt::me >= 0 && rt::active && mo != 0 && mo != 3) rt::acquire((uintptr_t)p); }
static void at_rel(volatile void* p, int mo) { if (rt::me >= 0 && rt::active && mo >= 3) rt::release((uintptr_t)p); }
#define ATOM(bits, T) \
    EXP T __tsan_atomic##bits##_load(const volatile T* p, int mo) { at_pre((void*)p, sizeof(T), 2); at_acq((void*)p, mo); return *p; } \
    EXP void __tsan_atomic##bits##_store(volatile T* p, T v, int mo) { at_pre(p, sizeof(T), 3); at_rel(p, mo); *p = v; } \
    EXP T __tsan_atomic##bits##_exchange(volatile T* p, T v, int mo) { at_pre(p, sizeof(T), 3); at_acq(p, mo); at_rel(p, mo); T o = *p; *p = v; return o; } \
    EXP T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int mo) { at_pre(p, sizeof(T), 3); at_acq(p, mo); at_rel(p, mo); T o = *p; *p = o + v; return o; } \
    EXP T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int mo) { at_pre(p, sizeof(T), 3); at_acq(p, mo); at_rel(p, mo); T o = *p; *p = o - v; return o; } \
    EXP T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int mo) { at_pre(p, sizeof(T), 3); at_acq(p, mo); at_rel(p, mo); T o = *p; *p = o & v; return o; } \
    EXP T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int mo) { at_pre(p, sizeof(T), 3); at_acq(p, mo); at_rel(p, mo); T o = *p; *p = o | v; return o; } \
    EXP T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int mo) { at_pre(p, sizeof(T), 3); at_acq(p, mo); at_rel(p, mo); T o = *p; *p = o ^ v; return o; } \
    EXP T __tsan_atomic##bits##_fetch_nand(volatile T* p, T v, int mo) { at_pre(p, sizeof(T), 3); at_acq(p, mo); at_rel(p, mo); T o = *p; *p = ~(o & v); return o; } \
    EXP int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int fm) { at_pre(p, sizeof(T), 3); if (*p == *e) { at_acq(p, mo); at_rel(p, mo); *p = v; return 1; } at_acq(p, fm); *e = *p; return 0; } \
    EXP int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int fm) { return __tsan_atomic##bits##_compare_exchange_strong(p, e, v, mo, fm); } \
    EXP T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T v, int mo, int fm) { T x = e; __tsan_atomic##bits##_compare_exchange_strong(p, &x, v, mo, fm); return x; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
EXP void __tsan_atomic_thread_fence(int) { rt::point(); }
EXP void __tsan_atomic_signal_fence(int) {}
// locks and once, as the cooperative scheduler needs them
struct Lk { void* p; int owner, depth; };
static Lk locks[256];
static Lk& lk(void* p) { for (auto& l : locks) if (l.p == p || !l.p) { if (!l.p) { l.p = p; l.owner = -1; } return l; } abort(); }
EXP int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
    if (rt::me < 0 || !rt::active) return pthread_mutex_lock(m);
    rt::point();
    Lk& l = lk(m);
    while (l.owner >= 0 && l.owner != rt::me) rt::blocked();
    l.owner = rt::me; ++l.depth;
    rt::acquire((uintptr_t)m);
    return 0;
}
EXP int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) {
    if (rt::me < 0 || !rt::active) return pthread_mutex_trylock(m);
    rt::point();
    Lk& l = lk(m);
    if (l.owner >= 0) return 16;
    l.owner = rt::me; l.depth = 1;
    rt::acquire((uintptr_t)m);
    return 0;
}
EXP int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
    if (rt::me < 0 || !rt::active) return pthread_mutex_unlock(m);
    Lk& l = lk(m);
    rt::release((uintptr_t)m);
    if (--l.depth == 0) l.owner = -1;
    rt::point();
    return 0;
}
EXP int __wrap_pthread_once(pthread_once_t* o, void (*f)()) {
    if (rt::me < 0 || !rt::active) return pthread_once(o, f);
    rt::point();
    Lk& l = lk(o);
    while (l.owner >= 0 && l.owner != 1000) rt::blocked();
    if (l.owner == 1000) { rt::acquire((uintptr_t)o); return 0; }
    l.owner = rt::me;
    f();
    rt::release((uintptr_t)o);
    l.owner = 1000;
    return 0;
}
EXP void __wrap_call_once(void* o, void (*f)()) { __wrap_pthread_once((pthread_once_t*)o, f); }
EXP int __wrap_mtx_lock(void* m) { return __wrap_pthread_mutex_lock((pthread_mutex_t*)m); }
EXP int __wrap_mtx_unlock(void* m) { return __wrap_pthread_mutex_unlock((pthread_mutex_t*)m); }
// memory the library allocates is never reused within a run, so that reuse is not mistaken for sharing
static char* heap; static size_t heap_at, heap_n;
static void* bump(size_t n) { heap_at = (heap_at + 63) & ~size_t(63); if (heap_at + n + 64 > heap_n) return nullptr; char* p = heap + heap_at; *(size_t*)p = n; heap_at += n + 64; return p + 64; }
static bool ours(void* p) { return p >= heap && p < heap + heap_n; }
EXP void* __wrap_malloc(size_t n) { if (rt::me < 0) return malloc(n); rt::point(); return bump(n); }
EXP void* __wrap_calloc(size_t a, size_t b) { if (rt::me < 0) return calloc(a, b); rt::point(); return bump(a * b); }
EXP void* __wrap_aligned_alloc(size_t, size_t n) { if (rt::me < 0) return malloc(n); return bump(n); }
EXP int __wrap_posix_memalign(void** p, size_t a, size_t n) { if (rt::me < 0) return posix_memalign(p, a, n); *p = bump(n); return *p ? 0 : 12; }
EXP void* __wrap_realloc(void* p, size_t n) { if (rt::me < 0 && !ours(p)) return realloc(p, n); void* q = bump(n); if (p && q) memcpy(q, p, std::min(n, ((size_t*)p)[-8])); return q; }
EXP void __wrap_free(void* p) { if (p && !ours(p)) free(p); }

// ---- thread programs ----------------------------------------------------------------------------
struct Op { int kind; Ev e; bool s16; uint32_t seed; const char* name; };
typedef std::vector<Op> Prog;
static std::vector<Prog> progs;
static std::vector<const char*> pname;
static int nbase;  // programs from here on are explored in serial pairs only
enum { FRAME, SEED, INIT, NOISE, DECODE, SYNTH, STAGES, VERSION, CONVERT, NOISE16, SYNTH16, MUTED, SILENCE, TONE, DTONE, CODES, STAGES72, STAGES71, STAGES24, DEC2450, DEC2400, PRED, LAST };
static void build() {
    auto F = [](Ev e, bool s16 = false) { return Op{FRAME, e, s16, 0, "frame"}; };
    auto K = [](int k, uint32_t seed = 0) { Op o; o.kind = k; o.e = make(IMBE_D, imbe_bits(120, 0, 40, 5), 0, 0, 0, "x"); o.s16 = false; o.seed = seed; o.name = "op"; return o; };
    Ev iv = make(IMBE_D, imbe_bits(60, 1, 40, 1), 0, 0, 0, "v"), iu = make(IMBE_D, imbe_bits(110, 0, 35, 2), 0, 0, 0, "u"), ibad = make(IMBE_D, imbe_bits(110, -1, 35, 3), 0, 7, 0, "bad"), i72 = make(IMBE72_F, imbe_bits(207, -1, 45, 4), 1, 3, 0, "f"), i71 = make(IMBE71_F, imbe_bits(20, 0, 45, 5), 2, 3, 0, "f");
    Ev av = make(A2450_D, a2450_bits(20, 3, 17, 1), 0, 0, 0, "v"), au = make(A2450_D, a2450_bits(70, 15, 15, 2), 0, 0, 0, "u"), at = make(A2450_D, a2450_tone(140, 100), 0, 0, 0, "t"), ae = make(A2450_D, a2450_erasure(121, 3), 0, 0, 0, "e"), af = make(A2450_F, a2450_bits(119, 4, 12, 4), 1, 2, 0, "f"), ab = make(A2450_D, a2450_bits(30, 3, 17, 1), 0, 9, 0, "b");
    Ev dv = make(A2400_D, a2400_bits(20, 3, 40, 1), 0, 0, 0, "v"), du = make(A2400_D, a2400_bits(125, 15, 30, 2), 0, 0, 0, "u"), dt = make(A2400_D, a2400_tone(40), 0, 0, 0, "t"), dn = make(A2400_D, a2400_tone(130), 0, 0, 0, "n"), df = make(A2400_F, a2400_bits(50, 4, 25, 4), 1, 2, 0, "f");
    auto P = [&](const char* n, Prog p) { progs.push_back(p); pname.push_back(n); };
    P("imbe voice", {K(INIT), F(iu), F(iv), F(iu, true)});
    P("seeded imbe frames", {K(SEED, 5), K(INIT), F(i72), F(i71, true)});
    P("ambe2450 voice and tone", {K(INIT), F(au), F(at), F(av, true)});
    P("seeded ambe2450 with erasure", {K(SEED, 77), K(INIT), F(ae), F(af), F(ab)});
    P("ambe2400 voice and tone", {K(INIT), F(dv), F(dt, true), F(du)});
    P("seeded ambe2400 comfort noise", {K(SEED, 123456), K(INIT), F(dn), F(df), F(dn)});
    P("imbe errors", {K(INIT), F(iu), F(ibad), F(ibad, true), K(NOISE)});
    P("primitives", {K(VERSION), K(INIT), K(DECODE), K(SYNTH), K(CONVERT), K(STAGES)});
    nbase = (int)progs.size();
    // everything the interface offers, in short programs: every frame of the alphabets in both sample forms, every primitive
    std::vector<Op> all;
    for (auto& v : {imbe_events(true), a2450_events(true), a2400_events(true)}) for (auto& e : v) { all.push_back(F(e, false)); all.push_back(F(e, true)); }
    std::vector<Op> prim;
    for (int k = SEED; k <= LAST; ++k) if (k != INIT) { prim.push_back(K(k, 9)); if (k >= TONE) prim.back().e.d = a2450_tone(k * 5, 90); }
    prim.push_back(K(SEED, 0));
    static std::vector<std::string> names;
    names.reserve(MAXPROG);
    auto bundle = [&](const std::vector<Op>& o, const char* n, size_t per) {
        for (size_t i = 0; i < o.size(); i += per) {
            Prog p{K(INIT)};
            for (size_t j = i; j < std::min(o.size(), i + per); ++j) p.push_back(o[j]);
            names.push_back(std::string(n) + " " + std::to_string(i) + ".. (" + (p[1].kind == FRAME ? p[1].e.name : std::string("call kind ") + std::to_string(p[1].kind)) + ")");
            P(names.back().c_str(), p);
        }
    };
    bundle(all, "frames", 9);
    bundle(prim, "primitives", 3);
    if (progs.size() > MAXPROG) abort();
}
static uint64_t do_op(Lib& L, const Op& op, State& s) {
    Out o;
    memset(&o, 0, sizeof o);
    uint64_t h = 0;
    char d[88];
    for (int i = 0; i < 88; ++i) d[i] = (char)op.e.d.b[i];
    switch (op.kind) {
        case FRAME: step(L, op.e, s, o, op.s16); o.str[599] = 0; { size_t n = strlen(o.str); memset(o.str + n, 0, 600 - n); } memset(o.d + nbits(op.e.path), 0, sizeof o.d - nbits(op.e.path)); break;
        case SEED: L.f_setThreadRngSeed(op.seed); break;
        case INIT: memset(&s, 0, sizeof s); L.f_initMbeParms(&s.cur, &s.prev, &s.enh); break;
        case NOISE: L.f_synthesizeComfortNoisef(o.pcm); break;
        case DECODE: L.f_decodeImbe4400Parms(d, &s.cur, &s.prev); L.f_moveMbeParms(&s.cur, &s.prev); L.f_spectralAmpEnhance(&s.cur); break;
        case SYNTH: L.f_synthesizeSpeechf(o.pcm, &s.cur, &s.enh, 3); L.f_applyAdaptiveSmoothing(&s.cur, &s.enh); break;
        case STAGES: { char f[4][24]; memset(f, 1, sizeof f); L.f_eccAmbe3600x2450C0(f); L.f_demodulateAmbe3600x2450Data(f); o.errs = L.f_eccAmbe3600x2450Data(f, o.d); break; }
        case VERSION: L.f_printVersion(o.str); break;
        case NOISE16: L.f_synthesizeComfortNoise(o.pcm16); break;
        case SYNTH16: L.f_synthesizeSpeech(o.pcm16, &s.cur, &s.enh, 3); break;
        case MUTED: { mbe_parms m = s.cur; m.errorRate = 0.5f; L.f_synthesizeSpeech(o.pcm16, &m, &s.enh, 3); L.f_synthesizeSpeechf(o.pcm, &m, &s.enh, 3); break; }
        case SILENCE: L.f_synthesizeSilence(o.pcm16); L.f_synthesizeSilencef(o.pcm); break;
        case TONE: L.f_synthesizeTonef(o.pcm, d, &s.cur); break;
        case DTONE: L.f_synthesizeTonefdstar(o.pcm, d, &s.cur, 40); break;
        case CODES: { char b[23] = {0}, e[15] = {0}; o.errs = L.f_golay2312(d, b); o.errs2 = L.f_hamming1511(d + 30, e) + 2 * L.f_7100x4400hamming1511(d + 50, e); long g = 0x12345; L.f_checkGolayBlock(&g); o.pcm[0] = (float)g; L.f_convertImbe7100to7200(d); memcpy(o.d, d, 88); break; }
        case STAGES72: { char f[8][23]; memset(f, 1, sizeof f); o.errs = L.f_eccImbe7200x4400C0(f); L.f_demodulateImbe7200x4400Data(f); o.errs2 = L.f_eccImbe7200x4400Data(f, o.d); break; }
        case STAGES71: { char f[7][24]; memset(f, 1, sizeof f); o.errs = L.f_eccImbe7100x4400C0(f); L.f_demodulateImbe7100x4400Data(f); o.errs2 = L.f_eccImbe7100x4400Data(f, o.d); break; }
        case STAGES24: { char f[4][24]; memset(f, 1, sizeof f); f[0][3] = 0; o.errs = L.f_eccAmbe3600x2400C0(f); L.f_demodulateAmbe3600x2400Data(f); o.errs2 = L.f_eccAmbe3600x2400Data(f, o.d); break; }
        case DEC2450: o.errs = L.f_decodeAmbe2450Parms(d, &s.cur, &s.prev); break;
        case DEC2400: o.errs = L.f_decodeAmbe2400Parms(d, &s.cur, &s.prev); break;
        case PRED: o.errs = L.f_requiresMuting(&s.cur) + 2 * L.f_isMaxFrameRepeat(&s.cur) + 4 * L.f_requiresAdaptiveSmoothing(&s.cur); snprintf(o.str, 40, "%s", L.f_versionString()); break;
        case LAST: L.f_useLastMbeParms(&s.cur, &s.prev); L.f_spectralAmpEnhance(&s.prev); break;
        case CONVERT: { float f[160]; for (int i = 0; i < 160; ++i) f[i] = i * 60.f - 4800; L.f_floattoshort(f, o.pcm16); break; }
    }
    h = mc::hash(&o, sizeof o);
    return mc::hash(&s, sizeof s, h);
}
static Lib* LL;
static const Prog* prog[MT];
static void own_ranges(int t) {
    pthread_attr_t at;
    void* lo; size_t sz;
    pthread_getattr_np(pthread_self(), &at);
    pthread_attr_getstack(&at, &lo, &sz);
    pthread_attr_destroy(&at);
    rt::th[t].slo = (char*)lo; rt::th[t].shi = (char*)lo + sz;
    struct C { const char* path; char *lo, *hi; } c{LL->path.c_str(), nullptr, nullptr};
    dl_iterate_phdr([](dl_phdr_info* i, size_t, void* p) {
        C* c = (C*)p;
        if (!i->dlpi_name || !strstr(c->path, "/") || strcmp(strrchr(c->path, '/'), strrchr(i->dlpi_name, '/') ? strrchr(i->dlpi_name, '/') : "")) return 0;
        rt::nro = 0;
        for (int k = 0; k < i->dlpi_phnum; ++k) {
            auto& h = i->dlpi_phdr[k];
            if (h.p_type == PT_LOAD && !(h.p_flags & PF_W) && rt::nro < 16) { rt::ro[rt::nro].lo = (char*)i->dlpi_addr + h.p_vaddr; rt::ro[rt::nro++].hi = (char*)i->dlpi_addr + h.p_vaddr + h.p_memsz; }
        }
        for (int k = 0; k < i->dlpi_phnum; ++k)
            if (i->dlpi_phdr[k].p_type == PT_TLS) {
                struct { unsigned long m, o; } ti = {i->dlpi_tls_modid, 0};
                extern void* tls_get(void*);
                c->lo = (char*)tls_get(&ti);
                c->hi = c->lo + i->dlpi_phdr[k].p_memsz;
            }
        return 0;
    }, &c);
    rt::th[t].tlo = c.lo; rt::th[t].thi = c.hi;
}
extern "C" void* __tls_get_addr(void*);
void* tls_get(void* p) { return __tls_get_addr(p); }
static sem_t ready, leave;
static void* body(void* arg) {
    int t = (int)(long)arg;
    own_ranges(t);
    State s;
    memset(&s, 0, sizeof s);
    sem_post(&ready);
    sem_wait(&rt::th[t].sem);
    rt::me = t;
    for (size_t i = 0; i < prog[t]->size(); ++i) {
        rt::point();
        rt::th[t].spin = 0;
        uint64_t h = do_op(*LL, (*prog[t])[i], s);
        RR->out[t][i] = h;
        RR->nops[t] = (int)i + 1;
    }
    rt::me = -1;
    rt::th[t].fin = true;
    int nx = rt::next_live(t);
    if (nx >= 0) { rt::cur = nx; sem_post(&rt::th[nx].sem); } else sem_post(&ready);
    sem_wait(&leave);
    return nullptr;
}
// one execution under one schedule, in a process of its own
static void execute(Lib& L, std::vector<int> which, int first, std::vector<Sw> sched) {
    memset(RR, 0, sizeof *RR);
    pid_t p = fork();
    if (p == 0) {
        for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) signal(s, SIG_DFL);
        alarm(20);
        LL = &L;
        rt::tab = (rt::Cell*)mmap(nullptr, rt::TAB * sizeof(rt::Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        heap_n = 8 << 20;
        heap = (char*)mmap(nullptr, heap_n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        rt::n = (int)which.size();
        rt::nsw = (int)sched.size();
        for (size_t i = 0; i < sched.size(); ++i) rt::sw[i] = sched[i];
        sem_init(&ready, 0, 0); sem_init(&leave, 0, 0);
        pthread_t th[MT];
        pthread_attr_t at;
        pthread_attr_init(&at);
        pthread_attr_setstacksize(&at, 256 << 10);
        for (int t = 0; t < rt::n; ++t) {
            prog[t] = &progs[which[t]];
            sem_init(&rt::th[t].sem, 0, 0);
            for (int k = 0; k < MT; ++k) rt::th[t].vc[k] = 0;
            rt::th[t].vc[t] = 1;
            pthread_create(&th[t], &at, body, (void*)(long)t);
            sem_wait(&ready);
        }
        // nothing before the start orders the threads' library accesses: a thread knows its own first epoch only
        for (int t = 0; t < rt::n; ++t) for (int k = 0; k < MT; ++k) if (k != t) rt::th[t].vc[k] = 0;
        rt::active = true;
        rt::cur = first;
        sem_post(&rt::th[first].sem);
        sem_wait(&ready);
        RR->points = rt::points;
        RR->done = 1;
        _exit(0);
    }
    int st;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (!RR->done && !RR->stuck && WIFSIGNALED(st) && WTERMSIG(st) != SIGALRM) snprintf(RR->what, sizeof RR->what, "the process died of signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
    mc::transitions(RR->points);
}

static uint64_t alone_out[2][MAXPROG][MAXOP];
static bool alone_have[2][MAXPROG];
static void need_alone(Lib& L, int v, int w) {
    if (alone_have[v][w]) return;
    execute(L, {w}, 0, {});
    if (!RR->done) mc::fail("program \"%s\" alone did not complete: %s", pname[w], RR->what);
    memcpy(alone_out[v][w], RR->out[0], sizeof alone_out[v][w]);
    alone_have[v][w] = true;
}
static std::string describe(const std::vector<int>& which, int first, const std::vector<Sw>& s) {
    std::string d;
    for (size_t i = 0; i < which.size(); ++i) d += (i ? " || " : "") + std::string("T") + std::to_string(i) + "=" + pname[which[i]];
    d += ", T" + std::to_string(first) + " first";
    for (auto& x : s) d += ", at point " + std::to_string(x.point) + " switch to T" + std::to_string(x.to);
    return d;
}
static int judge(Lib& L, int v, const std::vector<int>& which, int first, const std::vector<Sw>& sched) {
    for (int w : which) need_alone(L, v, w);
    execute(L, which, first, sched);
    mc::traces();
    auto d = [&] { return describe(which, first, sched); };
    if (RR->race) mc::fail("%s: %s", d().c_str(), RR->what);
    if (RR->stuck) mc::fail("%s: the threads block each other for ever", d().c_str());
    if (!RR->done) mc::fail("%s: the execution did not complete %s", d().c_str(), RR->what);
    for (size_t t = 0; t < which.size(); ++t)
        for (size_t i = 0; i < progs[which[t]].size(); ++i)
            if (RR->out[t][i] != alone_out[v][which[t]][i]) mc::fail("%s: operation %zu of thread %zu gives a different result than when the thread runs alone", d().c_str(), i + 1, t);
    uint64_t sig[4] = {(uint64_t)which[0] * 100 + (which.size() > 1 ? which[1] : 0), (uint64_t)first, sched.empty() ? 0 : (uint64_t)sched[0].point, sched.size() > 1 ? (uint64_t)sched[1].point * 8 + sched[1].to : 0};
    mc::state(mc::hash(sig, sizeof sig, v + which.size() * 10));
    mc::count("accesses checked", RR->accesses);
    mc::count("accesses to writable memory outside the thread's own stack and thread-local block", RR->shared);
    return RR->points;
}
static void check() {
    if (progs.empty()) build();
    RR = (RunRes*)mmap(nullptr, sizeof(RunRes), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    int N = nbase, M = (int)progs.size();
    for (int v = 0; v < 2; ++v) {
        Lib& L = lib(v ? "tsansimd" : "tsan");
        std::string pre = v ? "simd-" : "scalar-";
        // one hand-over: every point of the first thread, then the other runs to its end (both orders are covered
        // by both orders of the programs); quick also explores second hand-overs on a grid of points
        mc::group((pre + "one-preemption").c_str(), N * N * 8, [&](uint64_t i) {
            int a = (int)(i / 8) / N, b = (int)(i / 8) % N, part = (int)(i % 8);
            int np = judge(L, v, {a, b}, 0, {});
            for (int p = part; p < np; p += 8 * (mc::thorough ? 1 : v ? 8 : 1)) judge(L, v, {a, b}, 0, {{p, 1}});
            if (!v && i == 17) mc::sample("%s: one hand-over at each of %d scheduling points", describe({a, b}, 0, {}).c_str(), np);
        });
        mc::group((pre + "two-preemptions").c_str(), N * N * 16, [&](uint64_t i) {
            int a = (int)(i / 16) / N, b = (int)(i / 16) % N, part = (int)(i % 16);
            int np = judge(L, v, {a, b}, 0, {});
            int s1 = std::max(1, np / (mc::thorough ? 100 : v ? 8 : 20)), k = 0;
            for (int p = 1; p < np; p += s1, ++k) {
                if (k % 16 != part) continue;
                int n1 = judge(L, v, {a, b}, 0, {{p, 1}});
                int s2 = std::max(1, (n1 - p) / (mc::thorough ? 100 : v ? 8 : 20));
                for (int q = p + 1; q < n1; q += s2) judge(L, v, {a, b}, 0, {{p, 1}, {q, 0}});
            }
        });
        // every pair of short programs, one after the other: two calls that share memory without synchronisation are
        // unordered in every schedule, so one schedule decides; and one hand-over at a grid of points
        mc::group((pre + "serial-pairs").c_str(), (M - N) * (M - N), [&](uint64_t i) {
            int a = N + (int)i / (M - N), b = N + (int)i % (M - N);
            int np = judge(L, v, {a, b}, 0, {});
            int k = mc::thorough ? 12 : v || i % 4 ? 0 : 1;
            for (int j = 1; j <= k; ++j) judge(L, v, {a, b}, 0, {{np / 2 * j / (k + 1), 1}});
        });
        // all interleavings of whole operations of two threads (switches at operation boundaries), three switches
        mc::group((pre + "three-threads").c_str(), N * N * N, [&](uint64_t i) {
            int a = (int)i / N / N, b = (int)i / N % N, c = (int)i % N;
            if (!mc::thorough && (i * 7 + v) % (v ? 16 : 4)) return;
            int np = judge(L, v, {a, b, c}, 0, {});
            int s = std::max(1, np / (mc::thorough ? 24 : 6));
            for (int p = 1; p < np; p += s) {
                int n1 = judge(L, v, {a, b, c}, 0, {{p, 1}});
                for (int q = p + 2; q < n1; q += s) judge(L, v, {a, b, c}, 0, {{p, 1}, {q, 2}});
            }
        });
    }
}
int main(int c, char** v) { lib("tsan"); lib("tsansimd"); return mc::main(c, v, check); }
