// C12: send_packet against every bounded behaviour of the network.
#include <cerrno>
#include <memory>
#include <iostream>
#include <optional>
#include <string>
#include <vector>

#include <vrtgen/vrtgen.hpp>
#include <vrtgen/socket.hpp>
#include <vrtgen/nats.hpp>

#include "all_c12.hpp"

#include "nats_fake.hpp"
#include "net_fake.hpp"
#include "sched.hpp"

using namespace t::packets;
using Q = vt::Quiet;
using VX = CmdAckVX;
using S = CmdAckS;

namespace {

bool thorough = false;
const std::string PEER = "10.0.0.9:5000";

std::string str(std::span<const uint8_t> d) { return std::string(d.begin(), d.end()); }

// words of text in commands and state acknowledges
std::size_t big = 0;
vrtgen::packing::GPS_ASCII text()
{
    vrtgen::packing::GPS_ASCII g{};
    std::vector<uint8_t> d(big * 4);
    for (std::size_t i = 0; i < d.size(); i++) d[i] = static_cast<uint8_t>(i * 7 + i / 256);
    g.ascii_sentences(d);
    return g;
}

struct Req { bool v, x, s; int n() const { return v + x + s; } };
Req request() { int c = vt::choose(8, "acks"); return { (c & 1) != 0, (c & 2) != 0, (c & 4) != 0 }; }
Req some_request() { int c = 1 + vt::choose(7, "acks"); return { (c & 1) != 0, (c & 2) != 0, (c & 4) != 0 }; }

Cmd command(const Req& r, uint32_t id)
{
    Cmd p;
    p.req_v(r.v);
    p.req_x(r.x);
    p.req_s(r.s);
    p.message_id(id);
    p.controllee_id(77);
    p.controller_id(78);
    p.stream_id(5);
    p.bandwidth(1e6);
    if (big) p.gps_ascii(text());
    return p;
}

std::string ack_v(uint32_t id)
{
    VX a;
    a.ack_v(true);
    a.message_id(id);
    a.stream_id(5);
    a.controllee_id(77);
    a.controller_id(78);
    return str(a.data());
}
std::string ack_x(uint32_t id)
{
    VX a;
    a.ack_x(true);
    a.message_id(id);
    a.stream_id(5);
    a.controllee_id(77);
    a.controller_id(78);
    vrtgen::packing::WarningErrorFields e{};
    e.parameter_out_of_range(true);
    a.bandwidth_errors(e);
    return str(a.data());
}
std::string ack_s(uint32_t id)
{
    S a;
    a.message_id(id);
    a.stream_id(5);
    a.controllee_id(77);
    a.controller_id(78);
    a.bandwidth(2e6);
    a.gain(vrtgen::packing::Gain{});
    if (big) a.gps_ascii(text());
    return str(a.data());
}
std::vector<std::string> replies(const Req& r, uint32_t id)
{
    std::vector<std::string> v;
    if (r.v) v.push_back(ack_v(id));
    if (r.x) v.push_back(ack_x(id));
    if (r.s) v.push_back(ack_s(id));
    return v;
}
std::string join(const std::vector<std::string>& v) { std::string s; for (auto& x : v) s += x; return s; }

// what a call did
struct Out {
    bool threw = false;
    std::string what;
    std::optional<VX> v, x;
    std::optional<S> s;
    std::string cmd;
    int64_t dt = 0;
};

enum Tr { T_TCP, T_UDP, T_NATS };

template <class F>
void call(Out& o, const Req& r, uint32_t id, F&& f)
{
    auto p = command(r, id);
    { Q q; o.cmd = str(p.data()); }
    if (r.v) o.v = VX{};
    if (r.x) o.x = VX{};
    if (r.s) o.s = S{};
    auto t0 = vt::now();
    try { f(p, o.v, o.x, o.s); }
    catch (const std::exception& e) { o.threw = true; o.what = e.what(); }
    o.dt = vt::now() - t0;
}

std::string hex(const std::string& s)
{
    static const char* d = "0123456789abcdef";
    std::string r;
    for (unsigned char c : s) {
        if (r.size() >= 2000) return r + "... (" + std::to_string(s.size()) + " bytes)";
        r += d[c >> 4]; r += d[c & 15];
    }
    return r;
}

void succeeds(Out& o, const Req& r, uint32_t id, const char* when)
{
    if (o.threw) vt::fail(std::string("throws:") + when, std::string("the call throws '") + o.what + "' although every requested acknowledge arrived complete");
    auto want = replies(r, id);
    std::size_t i = 0;
    auto one = [&](bool req, auto& a, const char* n) {
        if (!req) { if (a.has_value()) vt::fail(std::string("unrequested:") + when, std::string("the unrequested acknowledge ") + n + " is filled"); return; }
        if (!a.has_value()) vt::fail(std::string("empty:") + when, std::string("the requested acknowledge ") + n + " is empty");
        auto got = str(a->data());
        Q q;
        if (got != want[i]) vt::fail(std::string("content:") + when, std::string("the acknowledge ") + n + " is " + hex(got) + " instead of " + hex(want[i]));
        i++;
    };
    one(r.v, o.v, "V");
    one(r.x, o.x, "X");
    one(r.s, o.s, "S");
}

void fails(Out& o, const char* when, const std::string& desc)
{
    if (!o.threw) vt::fail(std::string("accepted:") + when, "the call returns without an error although " + desc);
}

std::string sent_to(const std::string& to)
{
    std::string all;
    for (auto& c : net::calls("send")) if (c.res > 0 && (to.empty() || c.addr == to)) all += c.data.substr(0, static_cast<std::size_t>(c.res));
    return all;
}

void transmitted(const std::string& want, const char* when)
{
    Q q;
    auto got = sent_to("");
    if (got != want) vt::fail(std::string("sent:") + when, "the bytes sent are " + hex(got) + " instead of " + hex(want));
}

using TCP = vrtgen::socket::tcp::v4;
using UDP = vrtgen::socket::udp::v4;

void begin()
{
    Q q;
    net::reset();
    fake::reset();
    net::current = 1;
}
void end() { Q q; net::current = 0; if (net::count(1)) vt::fail("leak", "a descriptor stays open"); }

struct TcpRig {
    std::unique_ptr<TCP> s;
    int fd;
    explicit TcpRig(bool accepted = false)
    {
        s = std::make_unique<TCP>();
        if (accepted) {
            s->bind({ "10.0.0.1", 5000 });
            s->listen();
            { Q q; net::connection(s->native_handle(), PEER); }
            s->accept();
            Q q;
            for (auto& [f, d] : net::st.fds) if (d.accepted) fd = f;
        } else {
            s->connect({ "10.0.0.9", 5000 });
            fd = s->native_handle();
        }
        Q q;
        net::st.log.clear();
    }
    void send(Out& o, const Req& r, uint32_t id) { call(o, r, id, [&](auto& p, auto& v, auto& x, auto& sa) { vrtgen::send_packet(*s, p, v, x, sa); }); }
};

// answers when as many bytes as a command has were sent
void on_bytes(std::size_t n, const std::function<void()>& f)
{
    Q q;
    auto got = std::make_shared<std::size_t>(0);
    net::st.on_send = [n, got, f](int, const std::string&, const std::string& d) {
        *got += d.size();
        if (*got >= n) { *got -= n; f(); }
    };
}
std::size_t cmd_size() { Q q; auto p = command({ true, true, true }, 1); return p.data().size(); }

// the reply stream in up to three pieces, cut anywhere, with delays; the last piece may come with more
void tcp_segments(int cuts, bool delays, bool accepted)
{
    begin();
    {
        TcpRig rig(accepted);
        auto r = some_request();
        std::string all;
        { Q q; all = join(replies(r, 7)); }
        int n = static_cast<int>(all.size());
        int a = cuts >= 1 ? vt::choose(n + 1, "cut") : n;
        int b = cuts >= 2 ? a + vt::choose(n - a + 1, "cut") : n;
        int c = cuts >= 3 ? b + vt::choose(n - b + 1, "cut") : n;
        int64_t wait = delays ? 600000000 : 1;
        int fd = rig.fd;
        on_bytes(cmd_size(), [=] {
            vt::daemon([=] {
                int at = 0;
                for (int e : { a, b, c, n }) {
                    if (e > at) { net::bytes(fd, all.substr(static_cast<std::size_t>(at), static_cast<std::size_t>(e - at))); vt::block("network", [] { return false; }, vt::now() + wait); }
                    at = e;
                }
            }, "network");
        });
        Out o;
        rig.send(o, r, 7);
        succeeds(o, r, 7, "segments");
        transmitted(o.cmd, "segments");
    }
    end();
}

// everything is there at once, but each read returns less
void tcp_short_reads(int cuts)
{
    begin();
    {
        TcpRig rig;
        auto r = some_request();
        std::string all;
        { Q q; all = join(replies(r, 7)); }
        int first = 1 + vt::choose(cuts, "read"), second = 1 + vt::choose(cuts, "read"), rest = 1 + vt::choose(cuts, "read");
        auto k = std::make_shared<int>(0);
        int fd = rig.fd;
        on_bytes(cmd_size(), [=] { net::bytes(fd, all); });
        {
            Q q;
            net::st.split = [=](const char* c, std::size_t n) {
                if (c[0] != 'r') return n;
                std::size_t m = static_cast<std::size_t>(*k == 0 ? first : *k == 1 ? second : rest);
                (*k)++;
                return m < n ? m : n;
            };
        }
        Out o;
        rig.send(o, r, 7);
        succeeds(o, r, 7, "short-reads");
    }
    end();
}

// only part of the replies arrive, then nothing, the end or a reset
void tcp_truncated()
{
    begin();
    {
        TcpRig rig;
        auto r = some_request();
        std::string all;
        { Q q; all = join(replies(r, 7)); }
        int n = vt::choose(static_cast<int>(all.size()), "arrives");
        int how = vt::choose(3, "then");
        int fd = rig.fd;
        on_bytes(cmd_size(), [=] {
            if (n) net::bytes(fd, all.substr(0, static_cast<std::size_t>(n)));
            if (how) net::hangup(fd, how == 2);
        });
        Out o;
        rig.send(o, r, 7);
        fails(o, "truncated", "only " + std::to_string(n) + " of " + std::to_string(all.size()) + " bytes of the acknowledges arrived");
        transmitted(o.cmd, "truncated");
        if (o.dt > 60000000000ll) vt::fail("time", "the call waits for more than a minute");
    }
    end();
}

std::string word(uint32_t w) { std::string s(4, '\0'); for (int i = 0; i < 4; i++) s[static_cast<std::size_t>(i)] = static_cast<char>(w >> (24 - 8 * i)); return s; }

// something else in place of an acknowledge
std::string wrong(int k, bool is_s)
{
    Q q;
    switch (k) {
    case 0: return is_s ? ack_x(7) : ack_s(7);
    case 1: return str(command({ true, false, false }, 7).data());
    case 2: { Ctx c; return str(c.data()); }
    case 3: return word(0);
    case 4: return word(0x00000001);
    case 5: return word(0xffffffff) + word(0xffffffff);
    case 6: { auto a = is_s ? ack_s(7) : ack_x(7); a[3] = 1; return a; }             // size below its contents
    case 7: { auto a = is_s ? ack_s(7) : ack_x(7); a[3] = static_cast<char>(a[3] + 1); return a; }   // size beyond the end
    case 8: { auto a = is_s ? ack_s(7) : ack_x(7); a[3] = 0; return a; }
    default: return "x";
    }
}
constexpr int WRONG = 9;

void tcp_wrong()
{
    begin();
    {
        TcpRig rig;
        auto r = some_request();
        int i = vt::choose(r.n(), "position");
        int k = vt::choose(WRONG, "kind");
        std::vector<std::string> v;
        { Q q; v = replies(r, 7); }
        bool is_s = r.s && i == r.n() - 1;
        {
            Q q;
            v[static_cast<std::size_t>(i)] = wrong(k, is_s);
            v.resize(static_cast<std::size_t>(i) + 1);   // nothing after it
        }
        int fd = rig.fd;
        int end = vt::choose(2, "then");
        on_bytes(cmd_size(), [=] { net::bytes(fd, join(v)); if (end) net::hangup(fd, false); });
        Out o;
        rig.send(o, r, 7);
        fails(o, "wrong", "acknowledge " + std::to_string(i) + " is replaced by something else (" + std::to_string(k) + ")");
    }
    end();
}

// the command leaves in pieces
void tcp_short_writes()
{
    begin();
    {
        TcpRig rig;
        auto r = request();
        std::string all;
        { Q q; all = join(replies(r, 7)); }
        int n = static_cast<int>(cmd_size());
        int a = 1 + vt::choose(n, "write"), b = 1 + vt::choose(n, "write");
        int rest = vt::choose(2, "then") ? 1 : n;
        int fd = rig.fd;
        auto k = std::make_shared<int>(0);
        on_bytes(cmd_size(), [=] { if (!all.empty()) net::bytes(fd, all); });
        {
            Q q;
            net::st.split = [=](const char* c, std::size_t m) {
                if (c[0] == 'r') return m;
                auto w = static_cast<std::size_t>(*k == 0 ? a : *k == 1 ? b : rest);
                (*k)++;
                return w < m ? w : m;
            };
        }
        Out o;
        rig.send(o, r, 7);
        transmitted(o.cmd, "short-writes");
        succeeds(o, r, 7, "short-writes");
    }
    end();
}

// a system call fails
void tcp_failures()
{
    begin();
    {
        TcpRig rig;
        auto r = request();
        std::string all;
        { Q q; all = join(replies(r, 7)); }
        int fd = rig.fd;
        bool write = vt::choose(2, "direction") == 0;
        int which = vt::choose(write ? 2 : 4, "call");
        int half = vt::choose(2, "split");
        const int errs[] = { EIO, ECONNRESET };
        int err = errs[vt::choose(2, "error")];
        on_bytes(cmd_size(), [=] { if (!all.empty()) net::bytes(fd, all); });
        auto k = std::make_shared<int>(0);
        auto hit = std::make_shared<bool>(false);
        {
            Q q;
            net::st.split = [=](const char*, std::size_t m) { return half && m > 10 ? m / 2 : m; };
            net::st.fault = [=](const char* c, int f) {
                bool w = c[0] == 'w' || c[0] == 's';
                bool rd = c[0] == 'r';
                if (f != fd || (write ? !w : !rd)) return 0;
                if ((*k)++ != which) return 0;
                *hit = true;
                return err;
            };
        }
        Out o;
        rig.send(o, r, 7);
        bool h;
        { Q q; h = *hit; }
        if (h) fails(o, "failure", std::string(write ? "writing" : "reading") + " fails");
        else { succeeds(o, r, 7, "no-failure"); transmitted(o.cmd, "no-failure"); }
    }
    end();
}

// two commands one after the other; the second reply may come in pieces, the first whole
void tcp_twice()
{
    begin();
    {
        TcpRig rig;
        auto r = some_request();
        auto r2 = some_request();
        std::string all, all2;
        { Q q; all = join(replies(r, 7)); all2 = join(replies(r2, 8)); }
        int n = static_cast<int>(all2.size());
        int a = vt::choose(n + 1, "cut");
        int fd = rig.fd;
        auto k = std::make_shared<int>(0);
        on_bytes(cmd_size(), [=] {
            if ((*k)++ == 0) { net::bytes(fd, all); return; }
            vt::daemon([=] {
                net::bytes(fd, all2.substr(0, static_cast<std::size_t>(a)));
                vt::block("network", [] { return false; }, vt::now() + 500000000);
                net::bytes(fd, all2.substr(static_cast<std::size_t>(a)));
            }, "network");
        });
        Out o, o2;
        rig.send(o, r, 7);
        succeeds(o, r, 7, "first");
        rig.send(o2, r2, 8);
        succeeds(o2, r2, 8, "second");
        transmitted(o.cmd + o2.cmd, "two");
    }
    end();
}

// returns all of this command's acknowledges, or throws
void right_or_error(Out& o, const Req& r, uint32_t id, const char* when) { if (!o.threw) succeeds(o, r, id, when); }

// the acknowledges of a command come late, when the call has given up: the next call must not take them for its own
void tcp_late()
{
    begin();
    {
        TcpRig rig;
        auto r = some_request();
        auto r2 = some_request();
        std::string all, all2;
        { Q q; all = join(replies(r, 7)); all2 = join(replies(r2, 8)); }
        int n = static_cast<int>(all.size());
        int cut = vt::choose(thorough ? n + 1 : (n + 3) / 4 + 1, "in time") * (thorough ? 1 : 4);
        if (cut > n) cut = n;
        bool before = vt::choose(2, "rest") == 0;
        int fd = rig.fd;
        auto k = std::make_shared<int>(0);
        auto rest = all.substr(static_cast<std::size_t>(cut));
        auto open = [=] { auto it = net::st.fds.find(fd); return it != net::st.fds.end(); };
        on_bytes(cmd_size(), [=] {
            if ((*k)++ == 0) { if (cut) net::bytes(fd, all.substr(0, static_cast<std::size_t>(cut))); }
            else net::bytes(fd, (before ? "" : rest) + all2);
        });
        Out o, o2;
        rig.send(o, r, 7);
        if (cut == n) succeeds(o, r, 7, "first");
        else fails(o, "late", "only " + std::to_string(cut) + " of " + std::to_string(n) + " bytes of the acknowledges arrived in time");
        { Q q; if (before && !rest.empty() && open()) net::bytes(fd, rest); }
        rig.send(o2, r2, 8);
        right_or_error(o2, r2, 8, "late");
    }
    end();
}

// a call on a connection that is gone
void tcp_closed()
{
    begin();
    {
        TcpRig rig;
        auto r = request();
        int how = vt::choose(3, "how");
        { Q q; if (how < 2) net::hangup(rig.fd, how == 1); }
        if (how == 2) rig.s->close();
        Out o;
        rig.send(o, r, 7);
        if (r.n() || how == 2) fails(o, "closed", "the connection is closed");
    }
    end();
}

// ------------------------------------------------------------------ UDP
struct UdpRig {
    std::unique_ptr<UDP> s;
    int fd;
    UdpRig()
    {
        s = std::make_unique<UDP>();
        s->bind({ "10.0.0.1", 4000 });
        s->dst({ "10.0.0.9", 5000 });
        fd = s->native_handle();
        Q q;
        net::st.log.clear();
    }
    void send(Out& o, const Req& r, uint32_t id) { call(o, r, id, [&](auto& p, auto& v, auto& x, auto& sa) { vrtgen::send_packet(*s, p, v, x, sa); }); }
    void unchanged()
    {
        auto d = s->dst().to_string();
        Q q;
        if (d != PEER) vt::fail("destination", "the configured destination changes to " + d);
        for (auto& c : net::calls("send")) if (c.addr != PEER) vt::fail("destination", "a command goes to " + c.addr + " instead of " + PEER);
    }
};

void udp_plain(bool elsewhere, bool delays)
{
    begin();
    {
        UdpRig rig;
        for (uint32_t id = 7; id < 9; id++) {
            auto r = request();
            std::vector<std::string> v;
            { Q q; v = replies(r, id); net::st.log.clear(); }
            int fd = rig.fd;
            std::string from = elsewhere ? "10.0.0.10:1234" : PEER;
            std::vector<int64_t> w;
            for (std::size_t i = 0; i < v.size(); i++) { int d = delays ? vt::choose(3, "delay") : 0; Q q; w.push_back(d * 700000000ll); }
            { Q q; net::st.on_send = [=](int, const std::string&, const std::string&) {
                vt::daemon([=] {
                    for (std::size_t i = 0; i < v.size(); i++) {
                        if (w[i]) vt::block("network", [] { return false; }, vt::now() + w[i]);
                        net::dgram(fd, from, v[i]);
                    }
                }, "network");
            }; }
            Out o;
            rig.send(o, r, id);
            succeeds(o, r, id, "plain");
            transmitted(o.cmd, "plain");
            int n;
            { Q q; n = static_cast<int>(net::calls("send").size()); }
            if (n != 1) vt::fail("sent:datagrams", "the command is sent in " + std::to_string(n) + " datagrams");
            rig.unchanged();
        }
    }
    end();
}

void udp_truncated()
{
    begin();
    {
        UdpRig rig;
        auto r = some_request();
        std::vector<std::string> v;
        { Q q; v = replies(r, 7); }
        int i = vt::choose(r.n(), "position");
        int len = vt::choose(static_cast<int>(v[static_cast<std::size_t>(i)].size()) + 1, "length") - 1;   // -1: lost
        int fd = rig.fd;
        { Q q; net::st.on_send = [=](int, const std::string&, const std::string&) {
            for (int j = 0; j < static_cast<int>(v.size()); j++) {
                if (j == i && len < 0) continue;
                net::dgram(fd, PEER, j == i ? v[static_cast<std::size_t>(j)].substr(0, static_cast<std::size_t>(len)) : v[static_cast<std::size_t>(j)]);
            }
        }; }
        Out o;
        rig.send(o, r, 7);
        // a lost V acknowledge with the X one in its place is noticed because the last one is missing
        fails(o, "truncated", "acknowledge " + std::to_string(i) + " is lost or cut to " + std::to_string(len) + " bytes");
        if (o.dt > 60000000000ll) vt::fail("time", "the call waits for more than a minute");
        rig.unchanged();
    }
    end();
}

void udp_wrong()
{
    begin();
    {
        UdpRig rig;
        auto r = some_request();
        std::vector<std::string> v;
        { Q q; v = replies(r, 7); }
        int i = vt::choose(r.n(), "position");
        int k = vt::choose(WRONG + 1, "kind");
        bool is_s = r.s && i == r.n() - 1;
        int fd = rig.fd;
        { Q q; v[static_cast<std::size_t>(i)] = wrong(k, is_s); net::st.on_send = [=](int, const std::string&, const std::string&) { for (auto& d : v) net::dgram(fd, PEER, d); }; }
        Out o;
        rig.send(o, r, 7);
        fails(o, "wrong", "acknowledge " + std::to_string(i) + " is replaced by something else (" + std::to_string(k) + ")");
    }
    end();
}

void udp_failures()
{
    begin();
    {
        UdpRig rig;
        auto r = request();
        std::vector<std::string> v;
        { Q q; v = replies(r, 7); }
        int fd = rig.fd;
        bool write = vt::choose(2, "direction") == 0;
        int which = write ? 0 : vt::choose(3, "call");
        auto k = std::make_shared<int>(0);
        auto hit = std::make_shared<bool>(false);
        {
            Q q;
            net::st.on_send = [=](int, const std::string&, const std::string&) { for (auto& d : v) net::dgram(fd, PEER, d); };
            net::st.fault = [=](const char* c, int f) {
                bool w = c[0] == 'w' || c[0] == 's';
                bool rd = c[0] == 'r';
                if (f != fd || (write ? !w : !rd)) return 0;
                if ((*k)++ != which) return 0;
                *hit = true;
                return write ? EPERM : ECONNREFUSED;
            };
        }
        Out o;
        rig.send(o, r, 7);
        bool h;
        { Q q; h = *hit; }
        if (h) fails(o, "failure", std::string(write ? "sending" : "receiving") + " fails");
        else succeeds(o, r, 7, "no-failure");
    }
    end();
}

// acknowledges of the previous command come late, while the next is waiting or before it is sent
void udp_late()
{
    begin();
    {
        UdpRig rig;
        auto r = some_request();
        auto r2 = some_request();
        std::vector<std::string> v, v2;
        { Q q; v = replies(r, 7); v2 = replies(r2, 8); }
        int intime = vt::choose(r.n(), "in time");
        bool before = vt::choose(2, "rest") == 0;
        int fd = rig.fd;
        auto k = std::make_shared<int>(0);
        { Q q; net::st.on_send = [=](int, const std::string&, const std::string&) {
            bool first = (*k)++ == 0;
            int i = 0;
            for (auto& d : v) { bool t = i++ < intime; if (first ? t : !t && !before) net::dgram(fd, PEER, d); }
            if (!first) for (auto& d : v2) net::dgram(fd, PEER, d);
        }; }
        Out o, o2;
        rig.send(o, r, 7);
        fails(o, "late", "an acknowledge is late");
        { Q q; if (before) for (int i = intime; i < r.n(); i++) net::dgram(fd, PEER, v[static_cast<std::size_t>(i)]); }
        rig.send(o2, r2, 8);
        right_or_error(o2, r2, 8, "late");
    }
    end();
}

// ------------------------------------------------------------------ NATS
struct NatsRig {
    std::unique_ptr<vrtgen::nats::client> c;
    NatsRig()
    {
        c = std::make_unique<vrtgen::nats::client>("nats://here");
        c->new_inbox();
    }
    void send(Out& o, const Req& r, uint32_t id) { call(o, r, id, [&](auto& p, auto& v, auto& x, auto& sa) { vrtgen::send_packet(*c, "controllee", p, v, x, sa); }); }
};

void nats(int kind)
{
    begin();
    {
        NatsRig rig;
        for (uint32_t id = 7; id < (kind == 0 ? 9u : 8u); id++) {
            auto r = kind == 0 || kind == 3 ? request() : some_request();
            std::vector<std::string> v;
            { Q q; v = replies(r, id); fake::state.sent.clear(); }
            int i = kind == 1 || kind == 2 ? vt::choose(r.n(), "position") : 0;
            auto ui = static_cast<std::size_t>(i);
            int len = kind == 1 ? vt::choose(static_cast<int>(v[ui].size()) + 1, "length") - 1 : 0;
            int k = kind == 2 ? vt::choose(WRONG + 1, "kind") : 0;
            int64_t wait = kind == 0 ? vt::choose(2, "delay") * 900000000ll : 0;
            {
                Q q;
                if (kind == 1 && len >= 0) v[ui].resize(static_cast<std::size_t>(len));
                if (kind == 1 && len < 0) v.erase(v.begin() + i);
                if (kind == 2) v[ui] = wrong(k, r.s && i == r.n() - 1);
                fake::state.fail_publish = kind == 3;
                fake::state.on_publish = [=](const fake::Sent& s) {
                    auto inbox = s.reply;
                    vt::daemon([=] {
                        for (auto& d : v) {
                            if (wait) vt::block("network", [] { return false; }, vt::now() + wait);
                            fake::arrive(inbox, d);
                        }
                    }, "network");
                };
            }
            Out o;
            rig.send(o, r, id);
            if (kind == 0) {
                succeeds(o, r, id, "plain");
                auto in = rig.c->inbox();
                Q q;
                if (fake::state.sent.size() != 1 || fake::state.sent[0].subject != "controllee" || fake::state.sent[0].data != o.cmd || fake::state.sent[0].reply != in)
                    vt::fail("sent", "the command is not published once, unchanged, with the inbox as reply subject");
            } else fails(o, kind == 1 ? "truncated" : kind == 2 ? "wrong" : "failure", kind == 3 ? "publishing fails" : "acknowledge " + std::to_string(i) + " is lost, cut or replaced");
        }
    }
    fake::finish();
    end();
}

void nats_late()
{
    begin();
    {
        NatsRig rig;
        auto r = some_request();
        auto r2 = some_request();
        std::vector<std::string> v, v2;
        { Q q; v = replies(r, 7); v2 = replies(r2, 8); }
        int intime = vt::choose(r.n(), "in time");
        bool before = vt::choose(2, "rest") == 0;
        auto k = std::make_shared<int>(0);
        auto inbox = rig.c->inbox();
        { Q q; fake::state.on_publish = [=](const fake::Sent& s) {
            bool first = (*k)++ == 0;
            auto to = s.reply;
            vt::daemon([=] {
                int i = 0;
                for (auto& d : v) { bool t = i++ < intime; if (first ? t : !t && !before) fake::arrive(to, d); }
                if (!first) for (auto& d : v2) fake::arrive(to, d);
            }, "network");
        }; }
        Out o, o2;
        rig.send(o, r, 7);
        fails(o, "late", "an acknowledge is late");
        if (before) for (int i = intime; i < r.n(); i++) fake::arrive(inbox, v[static_cast<std::size_t>(i)]);
        rig.send(o2, r2, 8);
        right_or_error(o2, r2, 8, "late");
    }
    fake::finish();
    end();
}

// commands and acknowledges of every magnitude, in chunks of every magnitude
void large(char t)
{
    static const std::vector<std::size_t> FULL{ 100, 361, 500, 1010, 2040, 4090, 8180, 16200, 16370, 16390, 32760, 65400 }, FEW{ 361, 2040, 16200, 16390, 65400 };
    auto& SIZES = thorough ? FULL : FEW;
    const int max = static_cast<int>(SIZES.size()) - (t == 'u' ? thorough ? 4 : 2 : 0);
    begin();
    { auto c = vt::choose(max, "size"); Q q; big = SIZES[c]; }
    {
        const Req r{ vt::choose(2, "validation") == 1, true, true };
        const std::size_t chunks[] = { 1u << 30, 1460, 65536, 4096 };
        std::size_t chunk = t == 't' ? chunks[vt::choose(thorough ? 4 : 2, "chunk")] : 0;
        std::vector<std::string> v;
        { Q q; v = replies(r, 7); }
        Out o;
        if (t == 't') {
            TcpRig rig;
            int fd = rig.fd;
            on_bytes(cmd_size(), [=] { net::bytes(fd, join(v)); });
            { Q q; net::st.split = [=](const char*, std::size_t n) { return n < chunk ? n : chunk; }; }
            rig.send(o, r, 7);
        } else if (t == 'u') {
            UdpRig rig;
            int fd = rig.fd;
            { Q q; net::st.on_send = [=](int, const std::string&, const std::string&) { for (auto& d : v) net::dgram(fd, PEER, d); }; }
            rig.send(o, r, 7);
        } else {
            NatsRig rig;
            { Q q; fake::state.on_publish = [=](const fake::Sent& s) { auto to = s.reply; vt::daemon([=] { for (auto& d : v) fake::arrive(to, d); }, "network"); }; }
            rig.send(o, r, 7);
        }
        succeeds(o, r, 7, "large");
        if (t != 'n') transmitted(o.cmd, "large");
        else { Q q; if (fake::state.sent.size() != 1 || fake::state.sent[0].data != o.cmd) vt::fail("sent", "a large command is not published unchanged"); }
    }
    if (t == 'n') fake::finish();
    { Q q; big = 0; }
    end();
}

}  // namespace

int main(int argc, char** argv)
{
    thorough = argc > 1 && std::string(argv[1]) == "thorough";
    std::string only = argc > 2 ? argv[2] : "";
    std::vector<std::pair<std::string, std::function<void(const std::string&)>>> all;
    auto add = [&](const std::string& n, std::function<void()> f, int p = 0, int e = 0) {
        all.push_back({ n, [=](const std::string& x) {
            vt::Bounds b;
            b.preempt = p + (thorough ? 1 : 0);
            b.early = e;
            b.spurious = 0;
            b.seconds = thorough ? 600 : 60;
            vt::deepen(x, f, b);
        } });
    };
    std::cout.setstate(std::ios::failbit);
    net::on = true;
    add("tcp_segments_1", [] { tcp_segments(1, true, false); }, 1);
    add("tcp_segments_accepted", [] { tcp_segments(1, false, true); });
    if (thorough) add("tcp_segments_3", [] { tcp_segments(3, false, false); });
    add("tcp_segments_2", [] { tcp_segments(2, false, false); });
    add("tcp_segments_2_delayed", [] { tcp_segments(2, true, false); });
    add("tcp_short_reads", [] { tcp_short_reads(thorough ? 24 : 9); });
    add("tcp_truncated", [] { tcp_truncated(); });
    add("tcp_wrong", [] { tcp_wrong(); });
    add("tcp_short_writes", [] { tcp_short_writes(); });
    add("tcp_failures", [] { tcp_failures(); });
    add("tcp_twice", [] { tcp_twice(); });
    add("tcp_late", [] { tcp_late(); });
    add("tcp_closed", [] { tcp_closed(); });
    add("udp_plain", [] { udp_plain(false, true); }, 0, 0);
    add("udp_plain_schedules", [] { udp_plain(false, false); }, 1, 0);
    add("udp_elsewhere", [] { udp_plain(true, false); });
    add("udp_truncated", [] { udp_truncated(); });
    add("udp_wrong", [] { udp_wrong(); });
    add("udp_failures", [] { udp_failures(); });
    add("udp_late", [] { udp_late(); });
    add("tcp_large", [] { large('t'); });
    add("udp_large", [] { large('u'); });
    add("nats_large", [] { large('n'); });
    add("nats_late", [] { nats_late(); });
    add("nats_plain", [] { nats(0); }, 1);
    add("nats_truncated", [] { nats(1); });
    add("nats_wrong", [] { nats(2); });
    add("nats_failures", [] { nats(3); });
    if (only == "list") {
        for (auto& [n, f] : all) printf("%s\n", n.c_str());
        return 0;
    }
    for (auto& [n, f] : all) if (only.empty() || n == only) f(n);
}
