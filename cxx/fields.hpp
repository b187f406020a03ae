// Random setter/reset/pack/unpack histories over one fixed-size structure, compared with a bit-level
// model after every step.
#pragma once
#include <vrtgen/vrtgen.hpp>
#include <vrtgen/packing.hpp>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <optional>
#include <random>
#include <set>
#include <string>
#include <vector>
#include <cmath>
#include <cstring>

namespace vt {
using u64 = uint64_t;
using Bytes = std::vector<uint8_t>;

inline u64 rd(const Bytes& b, int off, int n) {
    u64 v = 0;
    for (int i = 0; i < n; ++i) v = (v << 1) | ((b[(off + i) / 8] >> (7 - (off + i) % 8)) & 1);
    return v;
}
inline void wr(Bytes& b, int off, int n, u64 v) {
    for (int i = n - 1; i >= 0; --i, v >>= 1) {
        auto& c = b[(off + i) / 8];
        auto m = uint8_t(1u << (7 - (off + i) % 8));
        c = (v & 1) ? (c | m) : (c & ~m);
    }
}
inline u64 mask(int n) { return n >= 64 ? ~u64{0} : (u64{1} << n) - 1; }
inline std::string hex(const Bytes& b) {
    std::string s; char t[4];
    for (auto c : b) { snprintf(t, sizeof t, "%02x", c); s += t; }
    return s;
}
template <class E> u64 num(E v) {
    if constexpr (std::is_enum_v<E>) return static_cast<u64>(static_cast<std::underlying_type_t<E>>(v));
    else return static_cast<u64>(v);
}
// raw wire bits -> double and back, independently of the library
inline long double fx(u64 raw, int n, int radix, bool sgn) {
    long double v = sgn && (raw >> (n - 1)) ? (long double)raw - std::ldexp((long double)1, n) : (long double)raw;
    return std::ldexp(v, -radix);
}
constexpr u64 BAD = 0xBADBADBADBADBADull;
inline u64 unfx(long double v, int n, int radix) {
    long double s = std::ldexp(v, radix);
    if (s != std::floor(s) || std::fabs(s) > std::ldexp((long double)1, 64)) return BAD;
    return (s < 0 ? u64(0) - u64(-s) : u64(s)) & mask(n);
}

template <class T> struct Field {
    const char* name;
    int off, n;                 // position from the first transmitted bit
    int limit;                  // values above are not used (0: none)
    int en_off, en_n;           // enable bits (en_n 0: none)
    std::function<void(T&, u64)> set;
    std::function<std::optional<u64>(T&)> get;
    std::function<void(T&)> reset;
    std::function<bool(u64)> usable;   // raw values the API can express
    int wide;                   // bits of the argument of the setter (0: as wide as the field); higher ones are not transmitted
};

struct Rng {
    std::mt19937_64 g;
    u64 operator()(u64 n) { return g() % n; }
    u64 value(int n) {
        switch ((*this)(7)) {
            case 0: return 0;
            case 1: return mask(n);
            case 2: return u64{1} << (*this)(n);
            case 3: return mask(n) >> 1;
            case 4: return mask(n) & ~(u64{1} << (*this)(n));
            default: return g() & mask(n);
        }
    }
};

struct Op { int kind; int field; u64 value; Bytes bytes; };   // 0 set, 1 reset, 2 repack into new object, 3 unpack bytes, 4 copy
struct Stats { long cases = 0, nontrivial = 0, ops = 0; std::vector<std::string> samples; };

template <class T> class Runner {
public:
    std::string cls;
    std::size_t size;
    std::vector<Field<T>> fields;
    Bytes dflt;
    bool indicator;
    std::string msg;

    bool fail(const std::string& m) { msg = cls + ": " + m; return false; }

    bool check(T& t, const Bytes& m, const std::string& at) {
        if (t.size() != size) return fail(at + ": size() is " + std::to_string(t.size()) + ", the structure has " + std::to_string(size));
        Bytes out(size + 16, 0xEE);
        t.pack_into(out.data() + 8);
        for (int i = 0; i < 8; ++i) if (out[i] != 0xEE || out[size + 8 + i] != 0xEE) return fail(at + ": pack_into writes outside the structure");
        Bytes got(out.begin() + 8, out.begin() + 8 + size);
        if (got != m) return fail(at + ": packed " + hex(got) + ", expected " + hex(m));
        for (auto& f : fields) {
            bool on = f.en_n == 0 || rd(m, f.en_off, f.en_n) == mask(f.en_n);
            auto want = on ? std::optional<u64>{rd(m, f.off, f.n)} : std::nullopt;
            if (want && !f.usable(*want)) continue;
            auto g = f.get(t);
            if (g != want)
                return fail(at + ": " + f.name + " reads " + (g ? std::to_string(*g) : "absent") + ", expected " +
                            (want ? std::to_string(*want) : "absent") + " (as wire bits)");
        }
        if constexpr (requires { t.any(); t.none(); }) {
            bool a = false; for (auto b : m) a |= b != 0;
            if (indicator && (t.any() != a || t.none() == a)) return fail(at + ": any()/none() wrong");
        }
        return true;
    }
    std::string text(const Op& o) {
        switch (o.kind) {
            case 0: return std::string("set ") + fields[o.field].name + "=bits:" + std::to_string(o.value);
            case 1: return std::string("reset ") + fields[o.field].name;
            case 2: return "pack+unpack";
            case 3: return "unpack " + hex(o.bytes);
            default: return "copy";
        }
    }
    bool run(const std::vector<Op>& ops) {
        auto t = std::make_unique<T>();
        Bytes m = dflt;
        if (!check(*t, m, "default constructed")) return false;
        for (auto& o : ops) {
            switch (o.kind) {
                case 0: {
                    auto& f = fields[o.field];
                    f.set(*t, o.value);
                    wr(m, f.off, f.n, o.value);
                    if (f.en_n) wr(m, f.en_off, f.en_n, mask(f.en_n));
                    break;
                }
                case 1: {
                    auto& f = fields[o.field];
                    f.reset(*t);
                    wr(m, f.off, f.n, 0);
                    wr(m, f.en_off, f.en_n, 0);
                    break;
                }
                case 2: {
                    Bytes b(size);
                    t->pack_into(b.data());
                    auto n = std::make_unique<T>();
                    n->unpack_from(b.data());
                    t = std::move(n);
                    break;
                }
                case 3: {
                    auto p = std::make_unique<uint8_t[]>(size);
                    std::memcpy(p.get(), o.bytes.data(), size);
                    t->unpack_from(p.get());
                    m = o.bytes;
                    break;
                }
                default: { auto n = std::make_unique<T>(*t); t = std::move(n); }
            }
            if (!check(*t, m, "after " + text(o))) return false;
        }
        return true;
    }
    std::vector<Op> gen(Rng& r) {
        std::vector<Op> ops;
        int n = 1 + r(24);
        for (int i = 0; i < n; ++i) {
            Op o{0, (int)r(fields.size()), 0, {}};
            auto k = r(20);
            auto& f = fields[o.field];
            if (k < 13 || (k < 16 && !f.reset)) {
                do { o.value = r.value(f.wide > f.n && r(4) == 0 ? f.wide : f.n); } while (!f.usable(o.value));
            } else if (k < 16) o.kind = 1;
            else if (k == 16) o.kind = 4;
            else if (k < 19) o.kind = 2;
            else {
                o.kind = 3; o.bytes.resize(size);
                for (auto& b : o.bytes) b = r(3) ? r(256) : (r(2) ? 0xff : 0);
                Bytes used(size, 0);        // reserved bits are transmitted as zero
                for (auto& x : fields) { wr(used, x.off, x.n, mask(x.n)); if (x.en_n) wr(used, x.en_off, x.en_n, mask(x.en_n)); }
                for (size_t j = 0; j < size; ++j) o.bytes[j] &= used[j];
            }
            ops.push_back(o);
        }
        return ops;
    }
    // returns false on violation, after minimising it
    bool explore(u64 seed, long iters, Stats& st) {
        Rng r{std::mt19937_64(seed)};
        std::set<std::string> seen;
        for (long i = 0; i < iters; ++i) {
            auto ops = gen(r);
            st.cases++; st.ops += ops.size();
            std::string key; std::set<int> touched;
            for (auto& o : ops) { key += text(o) + ";"; if (o.kind < 2) touched.insert(o.field); else if (o.kind == 3) touched.insert(-1); }
            if ((touched.size() >= 2 || fields.size() == 1) && seen.insert(key).second) st.nontrivial++;
            if (i == 3 && st.samples.size() < 6) st.samples.push_back(cls + ": " + key);
            if (!run(ops)) {
                for (bool again = true; again;) {
                    again = false;
                    for (size_t k = 0; k < ops.size(); ++k) {
                        auto c = ops; c.erase(c.begin() + k);
                        if (!run(c)) { ops = c; again = true; break; }
                    }
                }
                run(ops);
                printf("FAIL %s\nOPS", msg.c_str());
                for (auto& o : ops) printf(" %d,%d,%llu,%s", o.kind, o.field, (unsigned long long)o.value, o.bytes.empty() ? "-" : hex(o.bytes).c_str());
                printf("\n");
                return false;
            }
        }
        return true;
    }
};
} // namespace vt
