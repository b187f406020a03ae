// Named enumerators through every accessor that takes one: random histories against the codes of the standard.
#pragma once
#include "fields.hpp"
namespace vt {
template <class T> struct Enumr { const char* name; u64 code; void (*set)(T&); bool (*is)(const T&); };
template <class T> struct NAcc { const char* name; int off, n, en_off, en_n; std::vector<Enumr<T>> es; };
struct NStats { long cases = 0, nontrivial = 0; std::vector<std::string> samples; };
template <class T> struct Named {
    const char* cls; std::size_t size; Bytes dflt; std::vector<NAcc<T>> as;
    std::string msg;
    struct NOp { int a, e; bool parse; };
    bool run(const std::vector<NOp>& ops) {
        T t; Bytes m = dflt;
        for (auto& o : ops) {
            auto& a = as[o.a]; auto& e = a.es[o.e];
            wr(m, a.off, a.n, e.code);
            if (a.en_n) wr(m, a.en_off, a.en_n, mask(a.en_n));
            if (o.parse) t.unpack_from(m.data()); else e.set(t);
            auto at = std::string(cls) + ": after " + (o.parse ? "parsing " + hex(m) + " with code " + std::to_string(e.code) + " in " : std::string("setting ") + e.name + " in ") + a.name;
            Bytes got(size); t.pack_into(got.data());
            if (got != m) { msg = at + ": packed " + hex(got) + ", the standard's code is " + std::to_string(e.code) + ": " + hex(m); return false; }
            for (auto& x : as) for (auto& y : x.es) {
                bool want = rd(m, x.off, x.n) == y.code && (!x.en_n || rd(m, x.en_off, x.en_n) == mask(x.en_n));
                if (y.is(t) != want) { msg = at + ": " + x.name + (want ? " does not read " : " reads ") + y.name; return false; }
            }
        }
        return true;
    }
    static std::string text(const Named& n, const std::vector<NOp>& ops) {
        std::string s = n.cls; s += ":";
        for (auto& o : ops) s += std::string(o.parse ? " parse " : " set ") + n.as[o.a].name + "=" + n.as[o.a].es[o.e].name;
        return s;
    }
    bool explore(u64 seed, long iters, NStats& st) {
        Rng r{std::mt19937_64(seed)}; std::set<std::string> seen;
        // every enumerator once, by setter and by parsing, then random histories
        std::vector<std::vector<NOp>> fixed;
        for (int a = 0; a < (int)as.size(); ++a) for (int e = 0; e < (int)as[a].es.size(); ++e) { fixed.push_back({{a, e, false}}); fixed.push_back({{a, e, true}}); }
        for (long i = 0; i < iters + (long)fixed.size(); ++i) {
            std::vector<NOp> ops;
            if (i < (long)fixed.size()) ops = fixed[i];
            else for (int k = 1 + r(8); k; --k) { int a = r(as.size()); ops.push_back({a, (int)r(as[a].es.size()), r(3) == 0}); }
            ++st.cases;
            auto key = text(*this, ops);
            if (ops.size() > 1 && seen.insert(key).second) ++st.nontrivial;
            if (i == (long)fixed.size() + 2 && st.samples.size() < 6) st.samples.push_back(key);
            if (!run(ops)) {
                for (bool again = true; again;) { again = false;
                    for (size_t k = 0; k < ops.size(); ++k) { auto c = ops; c.erase(c.begin() + k); if (!run(c)) { ops = c; again = true; break; } } }
                run(ops);
                printf("FAIL %s\nOPS %s\n", msg.c_str(), text(*this, ops).c_str());
                return false;
            }
        }
        return true;
    }
};
}
