// A library copy brought back to the state it had when loaded: its writable segments are restored from a
// snapshot taken before the first call and the call runs on a thread of its own (fresh thread-locals).
#pragma once
#include <link.h>
#include <thread>
#include "lib.hpp"
#include "mc.hpp"

struct Cold {
    struct Seg { char* at; std::vector<char> was; };
    std::vector<Seg> seg;
    Lib& L;
    explicit Cold(Lib& l) : L(l) {
        struct link_map* m = nullptr;
        dlinfo(L.h, RTLD_DI_LINKMAP, &m);
        struct Ctx { const link_map* m; Cold* c; } cx{m, this};
        dl_iterate_phdr([](dl_phdr_info* i, size_t, void* p) {
            Ctx& x = *(Ctx*)p;
            if (i->dlpi_addr != x.m->l_addr || strcmp(i->dlpi_name, x.m->l_name)) return 0;
            ElfW(Addr) rb = 0, re = 0;  // the part made read-only after relocation
            for (int k = 0; k < i->dlpi_phnum; ++k)
                if (i->dlpi_phdr[k].p_type == PT_GNU_RELRO) { rb = i->dlpi_phdr[k].p_vaddr; re = (rb + i->dlpi_phdr[k].p_memsz) & ~(ElfW(Addr))4095; }
            for (int k = 0; k < i->dlpi_phnum; ++k) {
                auto& h = i->dlpi_phdr[k];
                if (h.p_type != PT_LOAD || !(h.p_flags & PF_W)) continue;
                ElfW(Addr) b = h.p_vaddr, e = h.p_vaddr + h.p_memsz;
                if (re > b && rb <= b) b = re;
                if (b >= e) continue;
                Seg s{(char*)(i->dlpi_addr + b), {}};
                s.was.assign(s.at, s.at + (e - b));
                x.c->seg.push_back(s);
            }
            return 1;
        }, &cx);
    }
    void restore() { for (auto& s : seg) memcpy(s.at, s.was.data(), s.was.size()); }
    // f runs first thing in a freshly loaded library on a new thread
    template <class F> void run(F&& f) {
        restore();
        bool failed = false;
        std::thread t([&] { try { f(); } catch (mc::Fail&) { failed = true; } });
        t.join();
        mc::flush();
        if (failed) throw mc::Fail{};
    }
};
