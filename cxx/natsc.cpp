// NATS clients, driven by lines on stdin: "<verb> <client> <arguments>", one answer per line.
#include <vrtgen/vrtgen.hpp>
#include <vrtgen/nats.hpp>
#include <iostream>
#include <sstream>
#include <memory>
#include <vector>
using Client = vrtgen::nats::client;
static std::string hex(std::span<const uint8_t> p) {
    std::string r; char b[3];
    for (auto c : p) { snprintf(b, 3, "%02x", c); r += b; }
    return r;
}
static std::vector<uint8_t> unhex(const std::string& s) {
    std::vector<uint8_t> r;
    for (size_t i = 0; i + 1 < s.size(); i += 2) r.push_back(std::stoi(s.substr(i, 2), nullptr, 16));
    return r;
}
static std::string shown(const std::unique_ptr<vrtgen::nats::message>& m) {
    return m ? hex(m->data()) + " " + (m->reply_subject().empty() ? "-" : m->reply_subject()) : "none";
}
int main() {
    std::cout << std::unitbuf;
    std::unique_ptr<Client> c[4];
    std::string l;
    auto run = [&](std::istream& in, const std::string& v) -> std::string {
        size_t i = 0; in >> i; std::string a, b, d;
        if (v == "new") { in >> a; c[i] = std::make_unique<Client>(a); return "ok"; }
        if (v == "make") { c[i] = std::make_unique<Client>(); return "ok"; }
        if (v == "drop") { c[i].reset(); return "ok"; }
        if (v == "connect") { in >> a; return c[i]->connect(a) == NATS_OK ? "ok" : "failed"; }
        if (v == "connected") return c[i]->is_connected() ? "1" : "0";
        if (v == "url") return "<" + c[i]->url() + ">";
        if (v == "subject") return "<" + c[i]->subject() + ">";
        if (v == "inbox") return "<" + c[i]->inbox() + ">";
        if (v == "newinbox") return c[i]->new_inbox() == NATS_OK ? "ok" : "failed";
        if (v == "sub") { int sync; in >> a >> sync; auto r = sync < 0 ? c[i]->subscribe(a) : c[i]->subscribe(a, sync); return r == NATS_OK ? "ok" : "failed"; }
        if (v == "sub0") return c[i]->subscribe("") == NATS_OK ? "ok" : "refused";
        if (v == "qsub0") return c[i]->queue_subscribe("s", "") == NATS_OK || c[i]->queue_subscribe("", "q") == NATS_OK ? "ok" : "refused";
        if (v == "qsub") { int sync; in >> a >> b >> sync; auto r = sync < 0 ? c[i]->queue_subscribe(a, b) : c[i]->queue_subscribe(a, b, sync); return r == NATS_OK ? "ok" : "failed"; }
        if (v == "pub") { in >> a >> b >> d; auto m = unhex(b); auto r = d == "-" ? c[i]->publish(a, m) : c[i]->publish(a, m, d == "inbox" ? c[i]->inbox() : d); return r == NATS_OK ? "ok" : "failed"; }
        if (v == "next") { int ms; in >> ms; return shown(ms < 0 ? c[i]->next_msg() : c[i]->next_msg(std::chrono::milliseconds(ms))); }
        if (v == "nextinbox") { int ms; in >> ms; return shown(ms < 0 ? c[i]->next_inbox_msg() : c[i]->next_inbox_msg(std::chrono::milliseconds(ms))); }
        return "?";
    };
    while (std::getline(std::cin, l)) {
        std::istringstream in(l); std::string v; in >> v;
        auto r = run(in, v);
        std::cout << "\n=" << r << std::endl;
    }
}
