// UUID: text and wire form against a 16-byte array.
#include "fields.hpp"
#include <vrtgen/types.hpp>
using namespace vt;
static std::string text(const Bytes& b, int style, Rng& g) {
    std::string s; static const char* lo = "0123456789abcdef"; static const char* up = "0123456789ABCDEF";
    for (int i = 0; i < 16; ++i) {
        if (i == 4 || i == 6 || i == 8 || i == 10) s += '-';
        for (int n : {b[i] >> 4, b[i] & 15}) s += (style == 0 || (style == 2 && g(2))) ? lo[n] : up[n];
    }
    return s;
}
static bool same(vrtgen::UUID& u, const Bytes& m, Rng& g, std::string& why) {
    Bytes out(32, 0xEE);
    u.pack_into(out.data() + 8);
    for (int i = 0; i < 8; ++i) if (out[i] != 0xEE || out[24 + i] != 0xEE) { why = "pack_into writes outside its 16 bytes"; return false; }
    if (Bytes(out.begin() + 8, out.begin() + 24) != m) { why = "packs as " + hex(Bytes(out.begin() + 8, out.begin() + 24)) + ", expected " + hex(m); return false; }
    if (u.get() != text(m, 0, g)) { why = "text is " + u.get() + ", expected " + text(m, 0, g); return false; }
    if (u.size() != 16) { why = "size() is not 16"; return false; }
    return true;
}
int main(int, char** argv) {
    u64 seed = strtoull(argv[1], 0, 10); long it = atol(argv[2]);
    long cases = 0, nontrivial = 0; std::vector<std::string> samples;
    for (long i = 0; i < it; ++i) {
        Rng g{std::mt19937_64(seed * 1000003 + i)};
        vrtgen::UUID u; Bytes m(16, 0); std::string hist = "default", why;
        bool ok = same(u, m, g, why);
        int n = 1 + g(6);
        for (int k = 0; ok && k < n; ++k) {
            for (auto& c : m) c = g(4) ? g(256) : (g(2) ? 0 : 0xff);
            if (k == 0 && !g(3)) for (int z = 0, e = g(16); z < e; ++z) m[z] = 0;   // leading zeros
            std::string t = text(m, g(3), g);
            switch (g(4)) {
                case 0: u = vrtgen::UUID(t); hist += "; from \"" + t + "\""; break;
                case 1: u.set(t); hist += "; set \"" + t + "\""; break;
                case 2: u.unpack_from(m.data()); hist += "; unpack " + hex(m); break;
                default: { vrtgen::UUID v; v.unpack_from(m.data()); vrtgen::UUID w(v.get()); u = w; hist += "; unpack+text " + hex(m); }
            }
            ok = same(u, m, g, why); ++cases; ++nontrivial;
        }
        if (i < 3) samples.push_back(hist);
        if (!ok) { printf("FAIL %s [after %s]\n", why.c_str(), hist.c_str()); printf("STATS %ld %ld 0\n", cases, nontrivial); return 1; }
    }
    printf("STATS %ld %ld 0\n", cases, nontrivial);
    for (auto& s : samples) printf("SAMPLE %s\n", s.c_str());
}
