// Bit-field access into big-endian words: each named position is driven by random histories.
#pragma once
#include "fields.hpp"
#include <vrtgen/types.hpp>
namespace vt {
enum class Small : uint8_t {};
struct PS { long cases = 0, nontrivial = 0; bool ok = true; };
// every accessor of a word type
template <class W> struct Acc { int pos, bits; void (*set)(vrtgen::packed<W>&, u64); u64 (*get)(const vrtgen::packed<W>&); u64 (*alt)(const vrtgen::packed<W>&); };
template <class W, int P, int B> Acc<W> acc() {
    return {P, B,
        [](vrtgen::packed<W>& p, u64 v) { if constexpr (B == 1) p.template set<P>(v != 0); else p.template set<P, B>((W)v); },
        [](const vrtgen::packed<W>& p) -> u64 { return (u64)p.template get<P, B, W>(); },
        [](const vrtgen::packed<W>& p) -> u64 {
            if constexpr (B == 1) return (u64)p.template get<P>();
            else if constexpr (B <= 8) return (u64)p.template get<P, B, Small>();
            else if constexpr (B == 16) return (uint16_t)p.template get<P, B, int16_t>();
            else if constexpr (B <= 32) return p.template get<P, B, uint32_t>();
            else return p.template get<P, B, uint64_t>(); }};
}
template <class W> void drive(const char* name, const std::vector<Acc<W>>& as, u64 seed, long iters, PS& st) {
    constexpr int N = sizeof(W) * 8;
    for (long it = 0; it < iters && st.ok; ++it) {
        Rng g{std::mt19937_64(seed * 7919 + it)};
        vrtgen::packed<W> p; Bytes m(sizeof(W), 0); std::string hist;
        auto verify = [&](const std::string& at) {
            Bytes out(sizeof(W) + 16, 0xEE);
            p.pack_into(out.data() + 8);
            Bytes got(out.begin() + 8, out.begin() + 8 + sizeof(W));
            std::string why;
            if (got != m) why = "packed " + hex(got) + ", expected " + hex(m);
            for (int i = 0; i < 8; ++i) if (out[i] != 0xEE || out[8 + sizeof(W) + i] != 0xEE) why = "writes outside the word";
            bool z = true; for (auto b : m) z &= !b;
            if (p.none() != z || p.any() == z) why = "any()/none() wrong for " + hex(m);
            if (p.size() != sizeof(W)) why = "size() wrong";
            for (int k = 0; k < 6 && why.empty(); ++k) {
                auto& a = as[g(as.size())];
                u64 want = rd(m, N - 1 - a.pos, a.bits);
                if (a.get(p) != want || a.alt(p) != want) why = "field at bit " + std::to_string(a.pos) + " of " + std::to_string(a.bits) +
                    " bits reads " + std::to_string(a.get(p)) + "/" + std::to_string(a.alt(p)) + ", expected " + std::to_string(want);
            }
            ++st.cases;
            if (!why.empty()) { printf("FAIL %s: %s [%s]\n", name, why.c_str(), (hist + at).c_str()); st.ok = false; }
            return why.empty();
        };
        if (!verify("fresh")) return;
        for (int k = 0, n = 1 + g(8); k < n; ++k) {
            auto& a = as[g(as.size())];
            std::string at;
            if (g(6)) { u64 v = g.value(a.bits > 1 && g(3) == 0 ? N : a.bits); a.set(p, v); wr(m, N - 1 - a.pos, a.bits, v); ++st.nontrivial;
                at = "set bit " + std::to_string(a.pos) + " width " + std::to_string(a.bits) + " to " + std::to_string(v) + "; "; }
            else { for (auto& b : m) b = g(256); p.unpack_from(m.data()); at = "unpack " + hex(m) + "; "; }
            if (!verify(at)) return;
            hist += at;
        }
    }
}
template <class W> bool swaps(const char* name, u64 seed, long iters, PS& st) {
    Rng g{std::mt19937_64(seed)};
    for (long i = 0; i < iters; ++i) {
        W v = (W)g.value(sizeof(W) * 8);
        W b = vrtgen::swap::to_be(v); Bytes raw(sizeof(W)); std::memcpy(raw.data(), &b, sizeof(W));
        ++st.cases; ++st.nontrivial;
        u64 want = (u64)v & mask(sizeof(W) * 8);
        if (rd(raw, 0, sizeof(W) * 8) != want || vrtgen::swap::from_be(b) != v) { printf("FAIL byte order conversion of %s value %llx\n", name, (unsigned long long)want); st.ok = false; return false; }
    }
    return true;
}
}
