/* C13, second half: the library itself compiled with initialisation tracking.  Every buffer the library only writes
 * is handed over uninitialised; every value it returns must be computed from initialised memory. */
#include <sanitizer/msan_interface.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include "mbelib-neo/mbelib.h"

struct rec { int32_t group, path, c0, total; char d[88]; char fr[192]; };
struct shared { volatile uint64_t trans, cases; volatile int a[64], b[64], what[64]; } *S;
static struct rec* ev;
static int n, W = 8, me;
typedef struct { mbe_parms *c, *p, *q; } st;

static void must(const volatile void* p, size_t k) { __msan_check_mem_is_initialized(p, k); }
static void check_parms(const mbe_parms* m) {
    must(&m->w0, sizeof m->w0); must(&m->L, sizeof m->L); must(&m->K, sizeof m->K);
    int L = m->L;
    must(m->Vl + 1, sizeof(m->Vl[0]) * L); must(m->Ml + 1, sizeof(m->Ml[0]) * L); must(m->log2Ml + 1, sizeof(m->log2Ml[0]) * L);
    must(m->PHIl + 1, sizeof(m->PHIl[0]) * 56); must(m->PSIl + 1, sizeof(m->PSIl[0]) * 56);
    must(&m->gamma, sizeof m->gamma); must(&m->repeat, sizeof m->repeat); must(&m->repeatCount, sizeof m->repeatCount);
    must(&m->errorRate, sizeof m->errorRate); must(&m->localEnergy, sizeof m->localEnergy); must(&m->amplitudeThreshold, sizeof m->amplitudeThreshold);
    must(&m->mutingThreshold, sizeof m->mutingThreshold); must(&m->noiseSeed, sizeof m->noiseSeed);
    must(m->noiseOverlap, sizeof m->noiseOverlap); must(m->previousUw, sizeof m->previousUw);
}
static void run(const struct rec* e, st* s, int s16) {
    int frame = e->path == 1 || e->path == 2 || e->path == 4 || e->path == 6, imbe = e->path <= 2;
    float* f = malloc(640);
    short* h = malloc(320);
    int *e1 = malloc(4), *e2 = malloc(4), nd = imbe ? 88 : 49;
    char *str = malloc(e->total + 3), *d = malloc(nd);
    size_t nf = e->path == 1 ? 184 : e->path == 2 ? 168 : 96;
    char* fr = malloc(nf);
    if (frame) memcpy(fr, e->fr, nf);
    else { memcpy(d, e->d, nd); *e1 = e->c0; *e2 = e->total; }
#define D(fn) do { if (s16) mbe_##fn(h, e1, e2, str, d, s->c, s->p, s->q, 3); else mbe_##fn##f(f, e1, e2, str, d, s->c, s->p, s->q, 3); } while (0)
#define F(fn, T) do { if (s16) mbe_##fn(h, e1, e2, str, T fr, d, s->c, s->p, s->q, 3); else mbe_##fn##f(f, e1, e2, str, T fr, d, s->c, s->p, s->q, 3); } while (0)
    switch (e->path) {
        case 0: D(processImbe4400Data); break;
        case 1: F(processImbe7200x4400Frame, (char(*)[23])); break;
        case 2: F(processImbe7100x4400Frame, (char(*)[24])); break;
        case 3: D(processAmbe2450Data); break;
        case 4: F(processAmbe3600x2450Frame, (char(*)[24])); break;
        case 5: D(processAmbe2400Data); break;
        case 6: F(processAmbe3600x2400Frame, (char(*)[24])); break;
    }
    must(e1, 4); must(e2, 4); must(d, nd);
    if (s16) must(h, 320); else must(f, 640);
    must(str, strlen(str) + 1);
    check_parms(s->c); check_parms(s->p); check_parms(s->q);
    free(f); free(h); free(e1); free(e2); free(str); free(d); free(fr);
    __sync_fetch_and_add(&S->trans, 1);
}
static st fresh(void) { st s = {malloc(sizeof(mbe_parms)), malloc(sizeof(mbe_parms)), malloc(sizeof(mbe_parms))}; mbe_initMbeParms(s.c, s.p, s.q); return s; }
static st copy(const st* a) { st s = {malloc(sizeof(mbe_parms)), malloc(sizeof(mbe_parms)), malloc(sizeof(mbe_parms))}; memcpy(s.c, a->c, sizeof(mbe_parms)); memcpy(s.p, a->p, sizeof(mbe_parms)); memcpy(s.q, a->q, sizeof(mbe_parms)); return s; }
static void drop(st* s) { free(s->c); free(s->p); free(s->q); }
static void pair(int i, int j, int depth) {
    S->a[me] = i; S->b[me] = j;
    st s = fresh();
    run(ev + i, &s, j & 1);
    run(ev + j, &s, i & 1);
    if (depth > 2)
        for (int k = 0; k < n; ++k)
            if (ev[k].group == ev[i].group) { st t = copy(&s); run(ev + k, &t, k & 1); drop(&t); }
    drop(&s);
    __sync_fetch_and_add(&S->cases, 1);
}
int main(int argc, char** argv) {
    FILE* f = fopen(argv[1], "rb");
    int depth = atoi(argv[2]);
    ev = malloc(sizeof *ev * 4096);
    n = (int)fread(ev, sizeof *ev, 4096, f);
    fclose(f);
    S = mmap(0, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (argc > 4) { pair(atoi(argv[3]), atoi(argv[4]), depth); printf("ok\n"); return 0; }
    pid_t pid[64];
    for (me = 0; me < W; ++me) {
        pid[me] = fork();
        if (!pid[me]) {
            freopen("/dev/null", "w", stderr);
            for (int i = 0; i < n; ++i)
                for (int j = 0; j < n; ++j)
                    if (ev[i].group == ev[j].group && (i * 31 + j) % W == me) pair(i, j, depth);
            _exit(0);
        }
    }
    int bad = -1;
    for (int k = 0; k < W; ++k) { int s; waitpid(pid[k], &s, 0); if (s && bad < 0) bad = k; }
    printf("events %d transitions %llu cases %llu\n", n, (unsigned long long)S->trans, (unsigned long long)S->cases);
    if (bad >= 0) { printf("FAILED %d %d\n", S->a[bad], S->b[bad]); return 1; }
    return 0;
}
