
#include <atomic>
int main() {
    using E = vrtgen::socket::udp::v4::endpoint_type;
    ns::Controller er; std::atomic_int one{0}, two{0};
    er.data_ctxt_src_endpoint(E{"127.0.0.1", 0});
    sockaddr_in s; socklen_t n = sizeof s; getsockname(er.data_ctxt_recv_socket().native_handle(), (sockaddr*)&s, &n);
    er.register_sig_listener([&](ns::packets::Sig&) { ++one; });
    er.register_sig_listener([&](ns::packets::Sig&) { ++two; });
    er.enable_receive();
    er.data_ctxt_dst_endpoint(E{"127.0.0.1", ntohs(s.sin_port)});
    ns::packets::Sig p; er.send_sig(p);
    for (int i = 0; i < 50 && !one && !two; ++i) usleep(100000);
    return two == 1 && one == 0 ? 0 : 1;
}
