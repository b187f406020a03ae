// A controller and a controllee in one process, driven by lines on stdin ("0 NET <verb> <argument>").
#pragma once
#include "pkdrv.hpp"
#include <condition_variable>
#include <mutex>
#include <deque>
#include <chrono>
#include <sys/socket.h>
#include <netinet/in.h>
#include <dirent.h>

namespace net {
// what handlers and listeners saw, in order
struct Log {
    std::mutex m; std::condition_variable cv; std::vector<std::string> v;
    void add(std::string s) { { std::lock_guard<std::mutex> l(m); v.push_back(std::move(s)); } cv.notify_all(); }
    // waits for n entries, then a little for entries that should not come
    std::string take(size_t n, int linger_ms) {
        std::unique_lock<std::mutex> l(m);
        cv.wait_for(l, std::chrono::seconds(6), [&] { return v.size() >= n; });
        if (linger_ms) cv.wait_for(l, std::chrono::milliseconds(linger_ms), [&] { return v.size() > n; });
        std::string r; for (auto& s : v) { r += s; r += "#"; }
        v.clear();
        return r;
    }
};
inline Log log;
inline std::mutex objects;         // the packets handlers answer with
template <class T> std::string show(pk::Base& b, std::unique_ptr<T>& slot, T& t) {
    slot = std::make_unique<T>(t);
    auto g = b.getters();
    return g + "|" + b.data();
}
inline int port_of(int fd) {
    sockaddr_in a{}; socklen_t n = sizeof a;
    getsockname(fd, (sockaddr*)&a, &n);
    return ntohs(a.sin_port);
}
inline int fds() {
    int n = 0; auto d = opendir("/proc/self/fd");
    while (readdir(d)) ++n;
    closedir(d);
    return n - 3;
}
}
