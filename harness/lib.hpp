// One loaded copy of the library: every public entry point, resolved from a shared object.
// Two copies of the same build have separate globals and thread-locals.
#pragma once
#include <dlfcn.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unistd.h>
extern "C" {
#include "mbelib-neo/mbelib.h"
}

#define LIB_FNS(X)                                                                                                      \
    X(checkGolayBlock) X(golay2312) X(hamming1511) X(7100x4400hamming1511) X(eccAmbe3600x2400C0)                          \
    X(eccAmbe3600x2400Data) X(decodeAmbe2400Parms) X(demodulateAmbe3600x2400Data) X(processAmbe2400Dataf)                \
    X(processAmbe2400Data) X(processAmbe3600x2400Framef) X(processAmbe3600x2400Frame) X(eccAmbe3600x2450C0)              \
    X(eccAmbe3600x2450Data) X(decodeAmbe2450Parms) X(demodulateAmbe3600x2450Data) X(processAmbe2450Dataf)                \
    X(processAmbe2450Data) X(processAmbe3600x2450Framef) X(processAmbe3600x2450Frame) X(eccImbe7200x4400C0)              \
    X(eccImbe7200x4400Data) X(decodeImbe4400Parms) X(demodulateImbe7200x4400Data) X(processImbe4400Dataf)                \
    X(processImbe4400Data) X(processImbe7200x4400Framef) X(processImbe7200x4400Frame) X(eccImbe7100x4400C0)              \
    X(eccImbe7100x4400Data) X(demodulateImbe7100x4400Data) X(convertImbe7100to7200) X(processImbe7100x4400Framef)        \
    X(processImbe7100x4400Frame) X(printVersion) X(versionString) X(setThreadRngSeed) X(moveMbeParms)                    \
    X(useLastMbeParms) X(initMbeParms) X(spectralAmpEnhance) X(synthesizeTonef) X(synthesizeTonefdstar)                  \
    X(synthesizeSilencef) X(synthesizeSilence) X(synthesizeSpeechf) X(synthesizeSpeech) X(floattoshort)                  \
    X(requiresMuting) X(isMaxFrameRepeat) X(synthesizeComfortNoisef) X(synthesizeComfortNoise)                           \
    X(applyAdaptiveSmoothing) X(requiresAdaptiveSmoothing) X(dumpImbe4400Data) X(dumpImbe7200x4400Data)                 \
    X(dumpImbe7200x4400Frame) X(dumpImbe7100x4400Data) X(dumpImbe7100x4400Frame)

struct Lib {
    void* h = nullptr;
    std::string path;
#define X(n) decltype(&mbe_##n) f_##n = nullptr;
    LIB_FNS(X)
#undef X
    explicit Lib(const std::string& p) : path(p) {
        h = dlopen(p.c_str(), RTLD_NOW | RTLD_LOCAL);
        if (!h) { fprintf(stderr, "dlopen %s: %s\n", p.c_str(), dlerror()); exit(2); }
#define X(n)                                                                         \
    f_##n = (decltype(f_##n))dlsym(h, "mbe_" #n);                                    \
    if (!f_##n) { fprintf(stderr, "%s lacks mbe_%s\n", p.c_str(), #n); exit(2); }
        LIB_FNS(X)
#undef X
    }
};

// directory holding the shared objects run.py built, e.g. <dir>/scalar.so, <dir>/scalar2.so
inline std::string lib_dir() { const char* d = getenv("MBE_LIBS"); return d ? d : "."; }
inline Lib& lib(const char* variant) {
    struct E { std::string n; Lib* l; };
    static E cache[32];
    static int nc = 0;
    for (int i = 0; i < nc; ++i) if (cache[i].n == variant) return *cache[i].l;
    cache[nc] = {variant, new Lib(lib_dir() + "/" + variant + ".so")};
    return *cache[nc++].l;
}

// a build that could not be made (the stand-in for another platform's headers lacks something the library uses)
inline bool have(const char* variant) { return !access((lib_dir() + "/" + variant + ".so").c_str(), R_OK); }

struct State { mbe_parms cur, prev, enh; };
