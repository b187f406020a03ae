// Fixed-point conversion: exact on every representable value, nearest on every other.
#include "fields.hpp"
#include <vrtgen/types.hpp>
using namespace vt;
static long cases = 0, nontrivial = 0;
static bool ok = true;
static int nfail = 0;
static void bad(const char* what, int n, int r, long double v, long double got, long double want) {
    ok = false;
    if (nfail++ < 5) printf("FAIL %s, %d bits with %d fractional bits: input %.25Lg gives %.25Lg, expected %.25Lg\n", what, n, r, v, got, want);
}
template <int N> struct I { using type = int64_t; };
template <> struct I<16> { using type = int16_t; };
template <> struct I<32> { using type = int32_t; };
template <> struct I<8> { using type = int8_t; };
template <int N, int R> void exact(int64_t raw) {
    using T = typename I<N>::type;
    ++cases; if (raw) ++nontrivial;
    long double want = std::ldexp((long double)raw, -R);
    auto fp = vrtgen::fixed::to_fp<N, R>((T)raw);
    if ((long double)fp != want) { bad("to floating point", N, R, raw, fp, want); return; }
    auto back = vrtgen::fixed::to_int<N, R>(want);
    if ((int64_t)back != raw) bad("from long double", N, R, want, back, raw);
    if ((long double)(double)want == want) {
        auto b2 = vrtgen::fixed::to_int<N, R>((double)want);
        if ((int64_t)b2 != raw) bad("from double", N, R, want, b2, raw);
    }
    if ((long double)(float)want == want) {
        auto b3 = vrtgen::fixed::to_int<N, R>((float)want);
        if ((int64_t)b3 != raw) bad("from float", N, R, want, b3, raw);
    }
}
template <int N, int R, class Fp> void nearest(Fp v) {
    ++cases; ++nontrivial;
    long double x = std::ldexp((long double)v, R);      // exact
    long double lo = -std::ldexp((long double)1, N - 1), hi = std::ldexp((long double)1, N - 1) - 1;
    if (x < lo || x > hi) return;
    long double got = vrtgen::fixed::to_int<N, R>(v);
    if (std::fabs(got - x) > 0.5L) bad("rounding", N, R, v, got, std::round(x));
}
template <int N, int R> void pair(Rng& g, long iters) {
    if (N <= 16) for (long r = -(1L << (N - 1)); r < (1L << (N - 1)); ++r) exact<N, R>(r);
    for (long i = 0; i < iters; ++i) {
        u64 raw = g.value(N);
        int64_t s = N == 64 ? (int64_t)raw : (int64_t)(raw << (64 - N)) >> (64 - N);
        exact<N, R>(s);
        long double frac = std::ldexp((long double)(g.g() >> 1), -63);
        switch (g(4)) { case 0: frac = 0.5L; break; case 1: frac = std::nextafter(0.5L, 0.0L); break; default: ; }
        if (N == 64) s >>= 2;    // keep the sum exact in a long double
        long double v = std::ldexp((long double)s + (N == 64 ? std::ldexp(std::floor(std::ldexp(frac, 1)), -1) : frac), -R);
        nearest<N, R>(v);
        nearest<N, R>((double)v);
        nearest<N, R>((float)v);
    }
}
int main(int, char** argv) {
    u64 seed = strtoull(argv[1], 0, 10); long it = atol(argv[2]);
    Rng g{std::mt19937_64(seed)};
    pair<16, 7>(g, it); pair<16, 6>(g, it); pair<16, 13>(g, it);
    pair<32, 22>(g, it); pair<32, 5>(g, it); pair<32, 16>(g, it); pair<32, 6>(g, it); pair<32, 24>(g, it);
    pair<64, 20>(g, it); pair<64, 16>(g, it); pair<64, 40>(g, it); pair<8, 3>(g, it);
    printf("STATS %ld %ld 0\nSAMPLE all 65536 codes of each 16-bit format, then random codes and points between codes\n", cases, nontrivial);
    return ok ? 0 : 1;
}
