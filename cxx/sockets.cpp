// Sockets and endpoints of all families, driven by lines on stdin: "<family> <verb> <arguments>", one answer per line.
#include <vrtgen/socket.hpp>
#include <dirent.h>
#include <iostream>
#include <memory>
#include <optional>
#include <sstream>
#include <utility>
#include <cstring>
#include <vector>
namespace vs = vrtgen::socket;
using Bytes = std::vector<unsigned char>;
static std::string hex(const void* p, size_t n) {
    std::string r; char b[3];
    for (size_t i = 0; i < n; ++i) { snprintf(b, 3, "%02x", ((const unsigned char*)p)[i]); r += b; }
    return r;
}
static Bytes unhex(const std::string& s) {
    Bytes r;
    for (size_t i = 0; i + 1 < s.size(); i += 2) r.push_back(std::stoi(s.substr(i, 2), nullptr, 16));
    return r;
}
static int fds() {
    int n = 0; auto d = opendir("/proc/self/fd");
    while (readdir(d)) ++n;
    closedir(d);
    return n - 3;
}
static std::string yes(bool b) { return b ? "1" : "0"; }

template <class S> struct Pool {
    using E = typename S::endpoint_type;
    std::unique_ptr<S> s[5];
    std::optional<E> e[5];
    static constexpr bool stream = requires(S& s) { s.listen(); };

    static std::string name(int fd, bool peer) {
        E e; socklen_t n = e.socklen();
        auto r = peer ? getpeername(fd, (sockaddr*)&e.sockaddr(), &n) : getsockname(fd, (sockaddr*)&e.sockaddr(), &n);
        return r < 0 ? "none" : hex(&e.sockaddr(), n);
    }
    static std::string show(const E& e) {
        return e.to_string() + " " + std::to_string(e.port()) + " " + hex(&e.address(), sizeof(e.address())) + " " + hex(&e.sockaddr(), sizeof(e.sockaddr())) + " " + std::to_string(e.socklen());
    }
    std::string run(const std::string& v, std::istream& in) {
        size_t i = 0, j = 0; in >> i;
        if (v == "e0") { e[i].emplace(); return "ok"; }
        if (v == "e1") { int p; in >> p; e[i].emplace(in_port_t(p)); return "ok"; }
        if (v == "e2") { int p; std::string a; in >> p >> a; auto b = unhex(a); try { E x(std::string(b.begin(), b.end()), in_port_t(p)); e[i] = x; return "ok"; } catch (const std::runtime_error& x) { return "EXC"; } }
        if (v == "addr") { std::string a; in >> a; auto b = unhex(a); e[i]->address(std::string(b.begin(), b.end())); return "ok"; }
        if (v == "eport") { int p; in >> p; e[i]->port(in_port_t(p)); return "ok"; }
        if (v == "copy") { in >> j; e[i] = e[j]; return "ok"; }
        if (v == "raw") { std::string a; in >> a; auto b = unhex(a); E x; memcpy(&x.sockaddr(), b.data(), std::min(b.size(), size_t(x.socklen()))); e[i] = x; return "ok"; }
        if (v == "show") return show(*e[i]);
        if (v == "fds") return std::to_string(fds());
        if (v == "make") { s[i] = std::make_unique<S>(); return "ok"; }
        if (v == "drop") { s[i].reset(); return "ok"; }
        // whoever may copy a socket must be able to do so without harm to the original
        if (v == "dup") { if constexpr (std::is_copy_constructible_v<S>) { S t(*s[i]); } return "ok"; }
        if (v == "move") { in >> j; if constexpr (std::is_move_constructible_v<S> && !std::is_copy_constructible_v<S>) { s[j] = std::make_unique<S>(std::move(*s[i])); s[i].reset(); return "moved"; } else return "ok"; }
        if (v == "close") { s[i]->close(); return "ok"; }
        if (v == "open") return yes(s[i]->is_open());
        if (v == "handle") return yes(s[i]->native_handle() >= 0);
        if (v == "bind") { in >> j; return yes(s[i]->bind(*e[j])); }
        if (v == "name") return name(s[i]->native_handle(), false);
        if (v == "peer") return name(s[i]->native_handle(), true);
        if (v == "src") { in >> j; s[i]->src(*e[j]); return "ok"; }
        if (v == "dst") { in >> j; s[i]->dst(*e[j]); return "ok"; }
        if (v == "src?") return show(std::as_const(*s[i]).src());
        if (v == "dst?") return show(s[i]->dst());
        if (v == "timeout") { size_t t; in >> t; s[i]->timeout(t); return "ok"; }
        if (v == "timeout?") { timeval t{}; socklen_t n = sizeof t; getsockopt(s[i]->native_handle(), SOL_SOCKET, SO_RCVTIMEO, &t, &n); return std::to_string(t.tv_sec) + "." + std::to_string(t.tv_usec); }
        if (v == "connect") { in >> j; return yes(s[i]->connect(*e[j])); }
        if (v == "shutdown") { s[i]->shutdown(SHUT_WR); return "ok"; }
        if constexpr (stream) {
            if (v == "listen") return yes(s[i]->listen());
            if (v == "accept") return yes(s[i]->accept());
            if (v == "write") {       // everything, or until it fails
                std::string h; in >> h; auto b = unhex(h); size_t done = 0;
                while (done < b.size()) { auto r = s[i]->write_some(b.data() + done, b.size() - done); if (r <= 0) return std::to_string(r); done += r; }
                return std::to_string(done);
            }
            if (v == "read") {        // n bytes, or what comes before the end; never more than asked for
                size_t n; in >> n; Bytes b(n + 16, 0xEE); size_t done = 0; ssize_t r = 0;
                while (done < n && (r = s[i]->read_some(b.data() + done, n - done)) > 0) done += r;
                for (size_t k = n; k < n + 16; ++k) if (b[k] != 0xEE) return "overrun";
                return hex(b.data(), done) + (done < n ? "/" + std::to_string(r) : "");
            }
        } else {
            if (v == "send") { in >> j; std::string h; in >> h; auto b = unhex(h == "-" ? "" : h); return std::to_string(s[i]->send_to(b.data(), b.size(), *e[j])); }
            if (v == "recv") {        // the endpoint that is filled in may have held something before
                size_t n; in >> j >> n; Bytes b(n + 16, 0xEE); if (!e[j]) e[j].emplace();
                auto r = s[i]->receive_from(b.data(), n, *e[j]);
                for (size_t k = n; k < n + 16; ++k) if (b[k] != 0xEE) return "overrun";
                return std::to_string(r) + ":" + (r > 0 ? hex(b.data(), r) : "");
            }
        }
        return "?";
    }
};
int main() {
    std::cout << std::unitbuf;
    Pool<vs::udp::v4> u4; Pool<vs::tcp::v4> t4;
#ifdef ONLY4
    auto &u6 = u4; auto& t6 = t4;
#else
    Pool<vs::udp::v6> u6; Pool<vs::tcp::v6> t6;
#endif
    std::string l;
    while (std::getline(std::cin, l)) {
        std::istringstream in(l); std::string f, v; in >> f >> v;
        auto r = f == "u4" ? u4.run(v, in) : f == "u6" ? u6.run(v, in) : f == "t4" ? t4.run(v, in) : t6.run(v, in);
        std::cout << "\n=" << r << std::endl;      // the library writes to standard output, too
    }
}
