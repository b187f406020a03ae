
using namespace ns::packets;
struct Impl : ns::controllee::Controllee { using Controllee::Controllee;
    auto execute_ctl(Ctl& p) -> std::tuple<CtlAckVX, CtlAckS> override { CtlAckS s; s.bandwidth(p.bandwidth()); return {CtlAckVX{}, s}; } };
int main() {
    using E = vrtgen::socket::udp::v4::endpoint_type;
    Impl ee(E{"127.0.0.1", 0});
    sockaddr_in s; socklen_t n = sizeof s; getsockname(ee.cmd_socket().native_handle(), (sockaddr*)&s, &n);
    ns::Controller er(E{"127.0.0.1", 0}); er.controllee_endpoint(E{"127.0.0.1", ntohs(s.sin_port)});
    ee.vrt_listen(); er.controller_id(7);
    Ctl c; c.controllee_id(0x12345678); c.bandwidth(1000.);
    auto [x, st] = er.send_ctl(c);
    usleep(200000);
    return x && st && x->controllee_id() == 0x12345678 && st->controllee_id() == 0x12345678 && st->controller_id() == 7 ? 0 : 1;
}
