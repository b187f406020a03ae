
#include <atomic>
int main() {
    using E = vrtgen::socket::udp::v4::endpoint_type;
    ns::Controller er; std::atomic_int got{0}, ok{0};
    er.data_ctxt_src_endpoint(E{"127.0.0.1", 0});
    sockaddr_in s; socklen_t n = sizeof s; getsockname(er.data_ctxt_recv_socket().native_handle(), (sockaddr*)&s, &n);
    std::vector<uint8_t> pay(40000); for (std::size_t i = 0; i < pay.size(); ++i) pay[i] = uint8_t(i * 7);
    er.register_sig_listener([&](ns::packets::Sig& p) { auto q = p.payload(); ok = q.size() == pay.size() && std::equal(q.begin(), q.end(), pay.begin()); ++got; });
    er.enable_receive();
    er.data_ctxt_dst_endpoint(E{"127.0.0.1", ntohs(s.sin_port)});
    ns::packets::Sig p; p.payload(pay); er.send_sig(p);
    for (int i = 0; i < 50 && !got; ++i) usleep(100000);
    return got == 1 && ok ? 0 : 1;
}
