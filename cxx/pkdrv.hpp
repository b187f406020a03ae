// Text protocol around one generated packet class.
#pragma once
#include "fields.hpp"
#include <memory>
#include <iostream>
#include <sstream>
#include <span>

namespace pk {
using vt::u64;
using vt::Bytes;
using vt::hex;

inline Bytes unhex(const std::string& s) {
    Bytes b(s.size() / 2);
    for (size_t i = 0; i < b.size(); ++i) b[i] = uint8_t(std::stoi(s.substr(2 * i, 2), nullptr, 16));
    return b;
}
inline u64 num(const Bytes& b) { u64 v = 0; for (auto c : b) v = v << 8 | c; return v; }
inline std::string hexn(u64 v, int bytes) {
    std::string s; char t[4];
    for (int i = bytes - 1; i >= 0; --i) { snprintf(t, sizeof t, "%02x", unsigned(v >> (8 * i)) & 255); s += t; }
    return s;
}
template <class X> struct unopt { using type = X; static constexpr bool opt = false; };
template <class X> struct unopt<std::optional<X>> { using type = X; static constexpr bool opt = true; };
template <class R> using bare = std::remove_cv_t<std::remove_reference_t<R>>;
template <class T> std::string packs(T& t) { Bytes b(t.size()); t.pack_into(b.data()); return hex(b); }
// structure-valued getter
template <class R> std::string sget(R&& r) {
    if constexpr (unopt<bare<R>>::opt) return r.has_value() ? packs(*r) : std::string("-");
    else return packs(r);
}
template <class T> T mk(const Bytes& h) { T t{}; Bytes c(h); t.unpack_from(c.data()); return t; }
template <class R> using inner = typename unopt<bare<R>>::type;

struct Base {
    virtual ~Base() {}
    virtual void make() = 0;
    virtual void unpack(std::span<const uint8_t>) = 0;
    virtual void copy() = 0;
    virtual void move() = 0;
    virtual void swapcopy() = 0;
    virtual std::string two(char) = 0;
    virtual std::string set(const std::string& n, const Bytes& h) = 0;
    virtual std::string ref(const std::string& n, const Bytes& h) = 0;
    virtual std::string reset(const std::string& n) = 0;
    virtual std::string resetcif(const std::string&) { return "?"; }
    virtual std::string sub(const std::string& path, bool rst, u64 v) { return "?"; }
    virtual std::string getters() = 0;
    virtual std::string data() = 0;
    virtual size_t size() = 0;
    virtual std::string name() = 0;
    virtual std::string match(std::span<const uint8_t>) = 0;
    virtual std::string payload(std::span<const uint8_t>) { return "?"; }
};
std::vector<std::unique_ptr<Base>>& all();
inline std::string (*net)(const std::string&, const std::string&) = nullptr;      // set by drivers with sockets

struct Exact {      // exact-size heap storage: any access outside it is reported by the sanitizer
    uint8_t* p; size_t n;
    explicit Exact(const Bytes& b) : p(new uint8_t[b.size()]), n(b.size()) { if (n) memcpy(p, b.data(), n); }
    ~Exact() { delete[] p; }
    std::span<const uint8_t> span() const { return {p, n}; }
};

inline int loop() {
    std::string line;
    while (std::getline(std::cin, line)) {
        std::istringstream is(line);
        size_t idx; std::string op, a, b;
        is >> idx >> op >> a >> b;
        auto& t = *all().at(idx);
        std::string out = "ok";
        try {
            if (op == "N") t.make();
            else if (op == "U") { Exact e(unhex(a == "." ? "" : a)); t.unpack(e.span()); }
            else if (op == "C") t.copy();
            else if (op == "M") t.move();
            else if (op == "W") t.swapcopy();
            else if (op == "K" || op == "I" || op == "E" || op == "V") out = t.two(op[0]);
            else if (op == "S") out = t.set(a, unhex(b));
            else if (op == "A") out = t.ref(a, unhex(b));
            else if (op == "R") out = t.reset(a);
            else if (op == "RC") out = t.resetcif(a);
            else if (op == "B") out = t.sub(a, b == "-", b == "-" ? 0 : std::stoull(b));
            else if (op == "D") out = t.data();
            else if (op == "G") out = t.getters();
            else if (op == "Z") out = std::to_string(t.size());
            else if (op == "X") { Exact e(unhex(a == "." ? "" : a)); out = t.match(e.span()); }
            else if (op == "P") { Exact e(unhex(a == "." ? "" : a)); out = t.payload(e.span()); }
            else if (op == "NET" && net) out = net(a, b);
            else out = "?";
        } catch (const std::exception& e) { out = std::string("EXC ") + e.what(); }
        std::cout << out << '\n';
        if (net) std::cout.flush();
    }
    std::cout.flush();
    return 0;
}
}
