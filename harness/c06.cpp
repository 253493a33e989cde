// C06: IMBE parameter decoding.
#include "parms_explore.hpp"
struct Imbe {
    static constexpr int N = 88, PITCH = 256, FIELD_BASES = 2;
    static constexpr bool IMBE = true;
    static void set_pitch(char* d, int b0) { for (int i = 0; i < 6; ++i) d[i] = b0 >> (7 - i) & 1; d[85] = b0 >> 1 & 1; d[86] = b0 & 1; }
    int call(Lib& L, const char* d, mbe_parms* c, mbe_parms* p) { return L.f_decodeImbe4400Parms(d, c, p); }
    ref::Model model(const char* d, const mbe_parms& p) { return ref::imbe_decode(d, p); }
    bool ret_ok(int r, const ref::Model& m) { return m.cls == ref::INVALID ? r != 0 : r == 0; }
    void rejected(const mbe_parms& b, const mbe_parms& c, const ref::Model& m, const char* what, const std::string& t) {
        if (memcmp(&b.w0, &c.w0, 4) || b.L != c.L || b.K != c.K || memcmp(b.Vl, c.Vl, sizeof b.Vl) || memcmp(b.Ml, c.Ml, sizeof b.Ml) || memcmp(b.log2Ml, c.log2Ml, sizeof b.log2Ml) || memcmp(&b.gamma, &c.gamma, 4))
            mc::fail("%s: reserved fundamental b0=%d is rejected but changes the model; bits %s", what, m.b0, t.c_str());
    }
    std::vector<std::vector<int>> fields(int b0) {
        std::vector<std::vector<int>> v;
        if (b0 > 207) return v;
        int L = ref::imbe_bands_from_b0(b0);
        std::vector<std::vector<int>> f(60, std::vector<int>(13, -1));
        for (int i = 0; i < 79; ++i) f[reftab::bo[L - 9][i][0]][reftab::bo[L - 9][i][1]] = 6 + i;
        for (auto& x : f) { std::vector<int> g; for (int j = 12; j >= 0; --j) if (x[j] >= 0) g.push_back(x[j]); if (!g.empty()) v.push_back(g); }
        return v;
    }
    std::vector<int> chain_pitches() { std::vector<int> v; for (int b = 0; b < 208; b += mc::thorough ? 12 : 9) v.push_back(b); v.push_back(207); v.push_back(255); return v; }
};
static void check() { ParmExplorer<Imbe> x; x.run(); }
int main(int c, char** v) { return mc::main(c, v, check); }
