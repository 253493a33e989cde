// C37: a call leaves the thread and the process as it found them, and takes nothing from them but its arguments.
//
// Every history runs on a thread of its own under one of several surroundings (floating-point modes, locale,
// environment, clock, generators, signals).  After every call the floating-point control state must be the one
// before it; after every history the process settings must be the ones before it, the C generators must continue
// their sequences, and under surroundings that may not matter the results must be those of the plain history.
#include <dirent.h>
#include <fcntl.h>
#include <fenv.h>
#include <grp.h>
#include <langinfo.h>
#include <locale.h>
#include <malloc.h>
#include <sched.h>
#include <stdio_ext.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/random.h>
#include <sys/stat.h>
#include <sys/timerfd.h>
#include <pthread.h>
#include <thread>
#if defined(__x86_64__)
#include <xmmintrin.h>
#endif
#include "calls.hpp"
#include "cold.hpp"

// ---- what the library could ask the system; answered oddly while `odd` is set on the thread -------------------
#define EXP extern "C" __attribute__((visibility("default")))
static thread_local int odd = 0;
static thread_local uint64_t asked = 0;
template <class F> static F next(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
static uint64_t strange() { return mc::mix((uint64_t)odd * 1000003 + ++asked); }
EXP char* getenv(const char* n) {
    static auto f = next<char* (*)(const char*)>("getenv");
    if (!odd) return f(n);
    static char one[] = "1", zero[] = "0", none[] = "", word[] = "yes";
    asked++;
    return odd % 4 == 0 ? word : odd % 4 == 1 ? one : odd % 4 == 2 ? zero : none;
}
EXP char* secure_getenv(const char* n) { return odd ? getenv(n) : next<char* (*)(const char*)>("secure_getenv")(n); }
EXP time_t time(time_t* t) noexcept {
    static auto f = next<time_t (*)(time_t*)>("time");
    if (!odd) return f(t);
    time_t v = (time_t)(strange() >> (odd % 2 ? 33 : 20));
    if (t) *t = v;
    return v;
}
EXP int clock_gettime(clockid_t c, timespec* t) noexcept {
    static auto f = next<int (*)(clockid_t, timespec*)>("clock_gettime");
    if (!odd) return f(c, t);
    t->tv_sec = (time_t)(strange() >> 33);
    t->tv_nsec = (long)(strange() % 1000000000);
    return 0;
}
EXP int timespec_get(timespec* t, int b) noexcept { return odd ? (clock_gettime(CLOCK_REALTIME, t), b) : next<int (*)(timespec*, int)>("timespec_get")(t, b); }
EXP int gettimeofday(timeval* t, void* z) noexcept {
    static auto f = next<int (*)(timeval*, void*)>("gettimeofday");
    if (!odd) return f(t, z);
    t->tv_sec = (time_t)(strange() >> 33);
    t->tv_usec = (long)(strange() % 1000000);
    return 0;
}
EXP clock_t clock(void) noexcept { return odd ? (clock_t)(strange() >> 20) : next<clock_t (*)()>("clock")(); }
EXP pid_t getpid(void) noexcept { static auto f = next<pid_t (*)()>("getpid"); return odd ? (pid_t)(strange() >> 40) : f(); }
EXP pid_t gettid(void) noexcept { static auto f = next<pid_t (*)()>("gettid"); return odd ? (pid_t)(strange() >> 40) : f(); }
EXP int sched_getcpu(void) noexcept { return odd ? (int)(strange() & 63) : next<int (*)()>("sched_getcpu")(); }
EXP ssize_t getrandom(void* p, size_t n, unsigned g) {
    if (!odd) return next<ssize_t (*)(void*, size_t, unsigned)>("getrandom")(p, n, g);
    for (size_t i = 0; i < n; ++i) ((unsigned char*)p)[i] = (unsigned char)strange();
    return (ssize_t)n;
}
EXP long sysconf(int k) noexcept { static auto f = next<long (*)(int)>("sysconf"); return odd ? (long)(1 + (strange() & 7)) : f(k); }
EXP int gethostname(char* p, size_t n) noexcept { if (!odd) return next<int (*)(char*, size_t)>("gethostname")(p, n); snprintf(p, n, "h%d", odd); asked++; return 0; }

// ---- allocations of the library, some of which can be made to fail: bit k of `deny` is the k-th on the thread ------
static thread_local uint64_t deny = 0;
static bool refuse() { bool r = deny & 1; deny = (deny >> 1) | (deny == ~0ull ? 1ull << 63 : 0); if (r) errno = ENOMEM; return r; }
EXP void* __wrap_malloc(size_t n) { return refuse() ? nullptr : malloc(n); }
EXP void* __wrap_calloc(size_t a, size_t b) { return refuse() ? nullptr : calloc(a, b); }
EXP void* __wrap_aligned_alloc(size_t al, size_t n) { return refuse() ? nullptr : aligned_alloc(al, n); }
EXP int __wrap_posix_memalign(void** q, size_t al, size_t n) { return refuse() ? ENOMEM : posix_memalign(q, al, n); }
EXP void* __wrap_realloc(void* p, size_t n) { return refuse() ? nullptr : realloc(p, n); }
EXP void __wrap_free(void* p) { free(p); }
EXP int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { return pthread_mutex_lock(m); }
EXP int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { return pthread_mutex_unlock(m); }
EXP int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { return pthread_mutex_trylock(m); }
EXP int __wrap_pthread_once(pthread_once_t* o, void (*f)()) { return pthread_once(o, f); }
EXP void __wrap_call_once(void* o, void (*f)()) { pthread_once((pthread_once_t*)o, f); }
EXP int __wrap_mtx_lock(void* m) { return pthread_mutex_lock((pthread_mutex_t*)m); }
EXP int __wrap_mtx_unlock(void* m) { return pthread_mutex_unlock((pthread_mutex_t*)m); }

// ---- surroundings ------------------------------------------------------------------------------------------------
struct Around { const char* name; bool neutral; };  // neutral: results may not depend on it
static const Around around[] = {
    {"as usual", true},
    {"rounding down", false},
    {"rounding up", false},
    {"rounding toward zero", false},
    {"denormals flushed", false},
    {"x87 in single precision", false},
    {"all floating-point flags raised", true},
    {"another locale, errno set", true},
    {"all signals blocked", true},
    {"no environment, C generators seeded otherwise", true},
    {"odd answers 1", true},
    {"odd answers 2", true},
    {"odd answers 3", true},
    {"odd answers 4, denormals flushed", false},
    {"invalid operations, divisions by zero and overflows trapped", true},
};
constexpr int NAROUND = sizeof around / sizeof *around;
static locale_t other_locale;
// a trapped operation goes on untrapped; whether one occurs is no matter, and the masks are not judged from then on
static thread_local volatile int trapped = 0;
static void on_fpe(int sig, siginfo_t* i, void* u) {
    if (i->si_code == FPE_INTDIV || trapped) { signal(sig, SIG_DFL); return; }
    trapped = 1;
#if defined(__x86_64__)
    ucontext_t* c = (ucontext_t*)u;
    c->uc_mcontext.fpregs->mxcsr |= 0x1f80;
    c->uc_mcontext.fpregs->cwd |= 0x3f;
#endif
}
static unsigned mxcsr() {
#if defined(__x86_64__)
    return _mm_getcsr();
#else
    return (unsigned)fegetround();
#endif
}
static void surround(int a) {
    odd = 0;
    fesetenv(FE_DFL_ENV);
    unsigned seed = 12345;
    switch (a) {
        case 1: fesetround(FE_DOWNWARD); break;
        case 2: fesetround(FE_UPWARD); break;
        case 3: fesetround(FE_TOWARDZERO); break;
#if defined(__x86_64__)
        case 13:
        case 4: _mm_setcsr(_mm_getcsr() | 0x8040); break;
        case 5: { unsigned short w; __asm__ volatile("fnstcw %0" : "=m"(w)); w &= (unsigned short)~0x300; __asm__ volatile("fldcw %0" : : "m"(w)); break; }
#endif
        case 6: feraiseexcept(FE_ALL_EXCEPT); break;
        case 7: if (!other_locale) other_locale = newlocale(LC_ALL_MASK, "C.UTF-8", nullptr); if (other_locale) uselocale(other_locale); setlocale(LC_ALL, "C.UTF-8"); errno = EINTR; break;
        case 8: { sigset_t s; sigfillset(&s); pthread_sigmask(SIG_SETMASK, &s, nullptr); break; }
        case 9: seed = 987654321; break;
    }
    srandom(seed);
    srand48(seed);
#if defined(__x86_64__)
    if (a == 14) { feclearexcept(FE_ALL_EXCEPT); feenableexcept(FE_INVALID | FE_DIVBYZERO | FE_OVERFLOW); }
#endif
    if (a >= 10 && a < 14) odd = a - 9;
}
static void plain() {
    odd = 0;
    fesetenv(FE_DFL_ENV);
    uselocale(LC_GLOBAL_LOCALE);
    setlocale(LC_ALL, "C");
    sigset_t s;
    sigemptyset(&s);
    pthread_sigmask(SIG_SETMASK, &s, nullptr);
}
// control state of the floating-point units, looked at after every call
struct Fp { unsigned csr; unsigned short cw; unsigned char tags; unsigned flags; };
static Fp fp() {
    Fp r{0, 0, 0, 0};
#if defined(__x86_64__)
    struct alignas(16) Fx { unsigned char b[512]; } x;
    __asm__ volatile("fxsave %0" : "=m"(x));
    memcpy(&r.cw, x.b, 2);
    r.tags = x.b[4];
    memcpy(&r.csr, x.b + 24, 4);
    r.csr &= ~0x3fu;  // raised flags are no setting
    unsigned long fl;
    __asm__ volatile("pushfq\n\tpopq %0" : "=r"(fl));
    r.flags = (unsigned)fl & 0x40400;  // direction, alignment check
#else
    r.csr = (unsigned)fegetround();
#endif
    return r;
}
static std::string fpdiff(const Fp& a, const Fp& b) {
    char t[200];
    if (a.csr != b.csr) snprintf(t, sizeof t, "floating-point control register 0x%04x, it was 0x%04x", b.csr, a.csr);
    else if (a.cw != b.cw) snprintf(t, sizeof t, "x87 control word 0x%04x, it was 0x%04x", b.cw, a.cw);
    else if (a.tags != b.tags) snprintf(t, sizeof t, "x87 registers in use 0x%02x (MMX state not cleared?), they were 0x%02x", b.tags, a.tags);
    else if (a.flags != b.flags) snprintf(t, sizeof t, "processor flags 0x%x, they were 0x%x", b.flags, a.flags);
    else return "";
    return t;
}
// settings of process and thread
static std::string process() {
    std::string r;
    char t[600];
    auto put = [&](const char* k, uint64_t v) { snprintf(t, sizeof t, "%s=%llx\n", k, (unsigned long long)v); r += t; };
    for (int s = 1; s < 65; ++s) {
        struct sigaction a;
        if (sigaction(s, nullptr, &a)) continue;
        snprintf(t, sizeof t, "signal %d handler=%p flags=%x mask=%llx\n", s, (void*)a.sa_handler, a.sa_flags, (unsigned long long)mc::hash(&a.sa_mask, 8));
        r += t;
    }
    sigset_t m;
    pthread_sigmask(SIG_SETMASK, nullptr, &m);
    put("blocked signals", mc::hash(&m, 8));
    stack_t st;
    sigaltstack(nullptr, &st);
    put("alternate signal stack", (uint64_t)st.ss_sp ^ (uint64_t)st.ss_flags);
    for (int w = 0; w < 3; ++w) { itimerval v; getitimer((__itimer_which_t)w, &v); put("interval timer", (uint64_t)(v.it_interval.tv_sec + v.it_interval.tv_usec + (w ? v.it_value.tv_sec + v.it_value.tv_usec : v.it_value.tv_sec > 0))); }
    for (int f = 0; f < 64; ++f) {
        int g = fcntl(f, F_GETFD);
        if (g < 0) continue;
        struct stat s;
        fstat(f, &s);
        snprintf(t, sizeof t, "descriptor %d dev=%lx ino=%lx flags=%x %x\n", f, (long)s.st_dev, (long)s.st_ino, g, fcntl(f, F_GETFL));
        r += t;
    }
    char cwd[400];
    r += std::string("directory=") + (getcwd(cwd, sizeof cwd) ? cwd : "?") + "\n";
    mode_t u = umask(022);
    umask(u);
    put("umask", u);
    uint64_t h = (uint64_t)environ;
    for (char** e = environ; e && *e; ++e) h = mc::hash(*e, strlen(*e), h);
    put("environment", h);
    r += std::string("locale=") + setlocale(LC_ALL, nullptr) + "\n";
    put("thread locale", (uint64_t)uselocale(0));
    put("nice", (uint64_t)getpriority(PRIO_PROCESS, 0) + 100);
    cpu_set_t cs;
    CPU_ZERO(&cs);
    sched_getaffinity(0, sizeof cs, &cs);
    put("affinity", mc::hash(&cs, sizeof cs));
    put("scheduling policy", (uint64_t)sched_getscheduler(0));
    char nm[17] = {0};
    prctl(PR_GET_NAME, nm);
    r += std::string("thread name=") + nm + "\n";
    put("dumpable", (uint64_t)prctl(PR_GET_DUMPABLE));
    put("no new privileges", (uint64_t)prctl(PR_GET_NO_NEW_PRIVS, 0, 0, 0, 0));
    put("death signal", [] { int s = 0; prctl(PR_GET_PDEATHSIG, &s); return (uint64_t)s; }());
    put("timer slack", (uint64_t)prctl(PR_GET_TIMERSLACK));
    put("personality", (uint64_t)personality(0xffffffff));
    for (int k = 0; k < RLIM_NLIMITS; ++k) { rlimit l; if (!getrlimit((__rlimit_resource)k, &l)) put("limit", l.rlim_cur ^ (l.rlim_max << 1)); }
    int o = 0, ty = 0;
    pthread_setcancelstate(PTHREAD_CANCEL_ENABLE, &o);
    pthread_setcancelstate(o, nullptr);
    pthread_setcanceltype(PTHREAD_CANCEL_DEFERRED, &ty);
    pthread_setcanceltype(ty, nullptr);
    put("cancellation", (uint64_t)(o * 2 + ty));
    put("stdout buffer", __fbufsize(stdout) * 2 + !!__flbf(stdout));
    put("stderr buffer", __fbufsize(stderr) * 2 + !!__flbf(stderr));
    put("identity", (uint64_t)geteuid() * 65536 + getegid());
    return r;
}
static std::string changed(const std::string& a, const std::string& b) {
    if (a == b) return "";
    size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
    auto line = [&](const std::string& s) { size_t p = s.rfind('\n', i ? i - 1 : 0); p = p == std::string::npos ? 0 : p + 1; return s.substr(p, s.find('\n', i) - p); };
    return "\"" + line(b) + "\", it was \"" + line(a) + "\"";
}
// the C generators go on where the seeding left them
static std::string generators(unsigned seed) {
    struct Want { long a[3], b[3]; };
    static thread_local Want w;
    static thread_local unsigned have = 0;
    char st[128], *old;
    Want g;
    for (int k = 0; k < 3; ++k) g.a[k] = random(), g.b[k] = lrand48();
    if (have != seed) {
        srandom(seed);
        srand48(seed);
        for (int k = 0; k < 3; ++k) w.a[k] = random(), w.b[k] = lrand48();
        have = seed;
    }
    (void)st; (void)old;
    for (int k = 0; k < 3; ++k) {
        if (g.a[k] != w.a[k]) return "rand()/random() no longer continues its sequence";
        if (g.b[k] != w.b[k]) return "drand48()/lrand48() no longer continues its sequence";
    }
    return "";
}

// ---- one history ---------------------------------------------------------------------------------------------------
struct History { Lib* L; std::function<const Op*(int)> op; int n; int a; bool full; uint64_t base, deny; std::string err; uint64_t result; };
static void* thread_main(void* q) {
    History& H = *(History*)q;
    State s;
    std::string before, call;
    H.L->f_initMbeParms(&s.cur, &s.prev, &s.enh);
    H.L->f_setThreadRngSeed(77);
    memset(fbuf, 0, sizeof fbuf);
    memset(sbuf, 0, sizeof sbuf);
    surround(H.a);
    int o = odd;
    if (H.full) { odd = 0; before = process(); odd = o; }
    deny = H.deny;
    trapped = 0;
    Fp f0 = fp();
    uint64_t h = 1;
    for (int i = 0; i < H.n && H.err.empty(); ++i) {
        const Op* op = H.op(i);
        tick = (uint64_t)i + H.base;
        op->f(*H.L, s);
        Fp f1 = fp();
        if (trapped) f0.csr |= 0x1f80, f1.csr |= 0x1f80, f0.cw |= 0x3f, f1.cw |= 0x3f;
        std::string d = fpdiff(f0, f1);
        if (!d.empty()) H.err = "after call " + std::to_string(i) + " (" + op->name + "): " + d;
        if (around[H.a].neutral) h = mc::hash(&s, sizeof s, mc::hash(fbuf, sizeof fbuf, mc::hash(sbuf, sizeof sbuf, h)));
    }
    if (trapped) mc::count("histories-with-a-trap");
    if (asked && H.err.empty()) mc::count("questions-asked", asked);
    asked = 0;
    odd = 0;
    deny = 0;
    if (H.err.empty() && H.full) { std::string d = changed(before, process()); if (!d.empty()) H.err = "after the calls: " + d; }
    if (H.err.empty()) { std::string d = generators(H.a == 9 ? 987654321u : 12345u); if (!d.empty()) H.err = "after the calls: " + d; }
    H.result = h;
    plain();
    mc::transitions(H.n);
    mc::state(mc::hash(&s, sizeof s, H.a));
    return nullptr;
}
static uint64_t run(Lib& L, const std::string& what, int a, int n, std::function<const Op*(int)> op, bool full = true, uint64_t base = 0, uint64_t denied = 0) {
    History H{&L, op, n, a, full, base, denied, "", 0};
    char** env = environ;
    static char* none[] = {nullptr};
    if (a == 9) environ = none;
    pthread_t t;
    if (pthread_create(&t, nullptr, thread_main, &H)) { fprintf(stderr, "no thread\n"); exit(2); }
    pthread_join(t, nullptr);
    environ = env;
    mc::traces();
    if (!H.err.empty()) mc::fail("%s (%s): %s", what.c_str(), around[a].name, H.err.c_str());
    return H.result;
}
static int tasks() { int n = 0; if (DIR* d = opendir("/proc/self/task")) { while (readdir(d)) n++; closedir(d); } return n; }

static const char* builds[3] = {"fault", "faultsimd", "release"};
static std::string load_err[3];
static void check() {
    static bool built = false;
    if (!built) { build(); build_fresh(); built = true; }
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_fpe;
    sa.sa_flags = SA_SIGINFO | SA_NODEFER;
    sigaction(SIGFPE, &sa, nullptr);
    size_t NE = evops.size(), NO = ops.size(), N = NE + NO, NF = fresh.size();
    auto all = [&](size_t k) { return k < NO ? &ops[k] : k < N ? &evops[k - NO] : &fresh[k - N]; };
    for (int v = 0; v < 3; ++v) {
        Lib& L = lib(builds[v]);
        std::string pre = std::string(v == 0 ? "scalar" : v == 1 ? "simd" : "release") + "-";
        int third = mc::thorough ? 1 : v == 0 ? 1 : 3;
        mc::group((pre + "loading").c_str(), 1, [&](uint64_t) {
            if (!load_err[v].empty()) mc::fail("loading the library: %s", load_err[v].c_str());
            mc::transitions();
        });
        // the very first call of a freshly loaded library, then another, in every surrounding
        mc::group((pre + "first").c_str(), (N + NF) * NAROUND, [&](uint64_t i) {
            static std::vector<Cold*> cold(3);
            if (!cold[v]) cold[v] = new Cold(L);
            size_t k = i / NAROUND;
            int a = (int)(i % NAROUND), n0 = tasks();
            const Op *p = all(k), *q = all((k * 7 + 3) % (N + NF));
            auto op = [&](int j) { return j == 1 ? q : p; };
            cold[v]->restore();
            uint64_t want = run(L, p->name + " > " + q->name, 0, 3, op);
            cold[v]->restore();
            uint64_t got = run(L, p->name + " > " + q->name, a, 3, op);
            cold[v]->restore();
            if (around[a].neutral && got != want) mc::fail("first calls %s > %s: the results under \"%s\" differ from those as usual", p->name.c_str(), q->name.c_str(), around[a].name);
            for (int w = 0; w < 2000 && tasks() > n0; ++w) usleep(500);
            if (tasks() > n0) mc::fail("%s > %s started a thread that goes on", p->name.c_str(), q->name.c_str());
        });
        // every two calls, and every two then others, in every surrounding
        mc::group((pre + "pairs").c_str(), N * N, [&](uint64_t i) {
            const Op *p = all(i / N), *q = all(i % N), *r = all((i * 13 + 5) % N);
            auto op = [&](int j) { return j % 4 == 0 ? p : j % 4 == 1 ? q : j % 4 == 2 ? r : q; };
            uint64_t want = 0;
            for (int a = 0; a < NAROUND; ++a) {
                if (a && (i / 3 + a) % (mc::thorough ? 1 : v ? 12 : 4)) continue;
                uint64_t h = run(L, p->name + " > " + q->name + " > " + r->name, a, 4, op, a || i % 3 == 0);
                if (!a) want = h;
                else if (around[a].neutral && h != want) mc::fail("%s > %s > %s: the results under \"%s\" differ from those as usual", p->name.c_str(), q->name.c_str(), r->name.c_str(), around[a].name);
            }
            if (i == 1001) mc::sample("%s > %s > %s in the surroundings listed: nothing changed, same results", p->name.c_str(), q->name.c_str(), r->name.c_str());
        });
        // out of memory: every pattern over the first allocations of the thread, all of them, every second
        if (v < 2) mc::group((pre + "short-of-memory").c_str(), N * 132, [&](uint64_t i) {
            size_t k = i / 132;
            uint64_t d = i % 132 + 1;
            d = d < 128 ? d : d == 128 ? ~0ull : d == 129 ? 0x5555555555555555ull : d == 130 ? 0xaaaaaaaaaaaaaaaaull : 1ull << (d - 121);
            static const int as[] = {0, 1, 4, 5, 14};
            const Op *p = all(k), *q = all((k * 7 + i) % N);
            for (int a : as)
                if (mc::thorough || !((i + a) % third)) run(L, p->name + " > " + q->name + " > " + p->name + ", allocations failing", a, 4, [&](int j) { return j == 1 ? q : p; }, (i + a) % 5 == 0, 0, d);
        });
        // long streams, and calls whose arguments never repeat
        mc::group((pre + "long").c_str(), (16 + NF) * NAROUND, [&](uint64_t i) {
            size_t k = i / NAROUND;
            int a = (int)(i % NAROUND), n = (mc::thorough ? 60000 : 1500) / third;
            auto op = [&](int j) { return k < 16 ? all((j * (k + 1) + j / 7 + j / 100) % N) : &fresh[k - 16]; };
            std::string name = k < 16 ? "stream " + std::to_string(k) : fresh[k - 16].name + " over and over";
            uint64_t want = run(L, name, 0, n, op, true, 5000 * k);
            if (a && run(L, name, a, n, op, true, 5000 * k) != want && around[a].neutral) mc::fail("%s: the results under \"%s\" differ from those as usual", name.c_str(), around[a].name);
        });
    }
}
int main(int c, char** v) {
    for (int k = 0; k < 3; ++k) {
        std::string b = process();
        Fp f = fp();
        lib(builds[k]);
        load_err[k] = fpdiff(f, fp());
        if (load_err[k].empty()) load_err[k] = changed(b, process());
    }
    return mc::main(c, v, check);
}
