// C11: all reachable states of two sockets, a bystander and the descriptor table, with every system call failing.
#include <cstdio>
#include <cstring>
#include <iostream>
#include <map>
#include <memory>
#include <new>
#include <optional>
#include <string>
#include <type_traits>
#include <unordered_map>
#include <vector>

#include <vrtgen/socket.hpp>
#ifdef HAS_V6
#define TCP vrtgen::socket::tcp::v6
#define UDP vrtgen::socket::udp::v6
static const char* IP[3] = { "::1", "fe80::2", "" };
static const char* ANY = "::";
constexpr int DOMAIN = AF_INET6;
#else
#define TCP vrtgen::socket::tcp::v4
#define UDP vrtgen::socket::udp::v4
static const char* IP[3] = { "10.0.0.1", "192.168.7.2", "" };
static const char* ANY = "0.0.0.0";
constexpr int DOMAIN = AF_INET;
#endif

#include "net_fake.hpp"

namespace {

std::string hist;
std::map<std::string, std::string> viols;
void bad(const std::string& key, const std::string& desc)
{
    if (viols.size() < 30 && !viols.count(key)) viols[key] = desc + " | after: " + hist;
}

uint16_t PORT[3] = { 4991, 65535, 0 };
std::string ep_text(int i) { return std::string(IP[i]) + ":" + std::to_string(PORT[i]); }

enum Op { MAKE, KILL, BIND1, BIND2, CONN1, CONN2, CLOSE, SHUT, TIMEOUT, DST1, SRC2, SEND1, SEND2, SENDDST, RECV1, RECV2, LISTEN, ACCEPT1, ACCEPT2, ACCEPT0, COPY, ASSIGN, MOVE, OTHER_OPEN, OTHER_CLOSE, NOPS };
const char* NAME[] = { "construct", "destroy", "bind(e1)", "bind(e2)", "connect(e1)", "connect(e2)", "close", "shutdown", "timeout", "dst(e1)", "src(e2)", "send(e1)", "send(e2)", "send(dst)", "receive(e1)", "receive(e2)", "listen", "accept(e1)", "accept(e2)", "accept without connection", "copy", "assign", "move", "another descriptor is opened", "another descriptor is closed" };

struct Step { int op, slot, fail; };

template <class T>
struct World {
    using E = typename T::endpoint_type;
    static constexpr bool tcp = std::is_same_v<T, TCP>;
    alignas(T) unsigned char mem[2][sizeof(T)];
    bool alive[2] = {};
    std::string src[2], dst[2];           // what the object must report
    std::string peer[2];                  // peer of stream traffic, empty: none
    int other = -1;
    int ncalls = 0;                       // faultable calls in this operation
    int fail_at = -1;

    T& o(int s) { return *std::launder(reinterpret_cast<T*>(mem[s])); }
    E ep(int i) { return E(IP[i], PORT[i]); }

    World()
    {
        memset(mem, 0, sizeof mem);
        net::reset();
        net::st.fault = [this](const char* call, int) -> int {
            if (ncalls++ != fail_at) return 0;
            return strcmp(call, "close") == 0 ? EINTR : strcmp(call, "bind") == 0 ? EADDRINUSE : strcmp(call, "connect") == 0 ? ECONNREFUSED : strcmp(call, "accept") == 0 ? ECONNABORTED : EIO;
        };
    }
    ~World()
    {
        fail_at = -1;
        for (int s = 0; s < 2; s++) if (alive[s]) { net::current = s + 1; o(s).~T(); net::current = 0; }
    }

    bool possible(const Step& st)
    {
        int s = st.slot;
        switch (st.op) {
        case MAKE: return !alive[s];
        case COPY: return std::is_copy_constructible_v<T> && alive[0] && !alive[1] && s == 0;
        case ASSIGN: return std::is_copy_assignable_v<T> && alive[0] && alive[1] && s == 0;
        case MOVE: return std::is_move_constructible_v<T> && !std::is_copy_constructible_v<T> && alive[0] && !alive[1] && s == 0;
        case OTHER_OPEN: return s == 0 && other < 0 && st.fail < 0;
        case OTHER_CLOSE: return s == 0 && other >= 0 && st.fail < 0;
        case LISTEN: case ACCEPT1: case ACCEPT2: case ACCEPT0: return tcp && alive[s];
        case SEND1: case SEND2: return !tcp && alive[s];
        case RECV1: return alive[s];
        case RECV2: return alive[s] && !tcp;
        default: return alive[s];
        }
    }

    void expect_ep(int s)
    {
        auto a = o(s).src().to_string();
        auto b = o(s).dst().to_string();
        if (a != src[s]) bad("src", "the source endpoint is reported as '" + a + "', should be '" + src[s] + "'");
        if (b != dst[s]) bad("dst", "the destination endpoint is reported as '" + b + "', should be '" + dst[s] + "'");
    }

    // returns the number of faultable calls made
    int apply(const Step& st)
    {
        int s = st.slot;
        ncalls = 0;
        fail_at = st.fail;
        net::current = s + 1;
        net::st.log.clear();
        std::string none = std::string(ANY) + ":0";
#ifdef HAS_V6
        none = "::" + std::string(":0");
#endif
        int e = st.op == BIND2 || st.op == CONN2 || st.op == SRC2 || st.op == SEND2 || st.op == RECV2 || st.op == ACCEPT2 ? 1 : 0;
        uint8_t buf[8] = { 1, 2, 3, 4, 5, 6, 7, 8 };
        switch (st.op) {
        case MAKE: {
            memset(mem[s], 0, sizeof(T));
            bool ok = true;
            try { new (mem[s]) T(); }
            catch (const std::exception&) { ok = false; }
            alive[s] = ok;
            if (ok) {
                src[s] = dst[s] = none;
                peer[s].clear();
                if (net::count(s + 1) != 1) bad("construct", "a new socket holds " + std::to_string(net::count(s + 1)) + " descriptors");
                else if (net::st.fds[o(s).native_handle()].type != (tcp ? SOCK_STREAM : SOCK_DGRAM) || net::st.fds[o(s).native_handle()].domain != DOMAIN) bad("construct", "a socket of another type or domain is opened");
                else if (st.fail < 0 && net::st.fds[o(s).native_handle()].rcvtimeo < 0) bad("timeout", "a new socket has no receive timeout");
            } else if (net::count(s + 1)) bad("leak:construct", "a failed construction leaves a descriptor open");
            if (!ok && st.fail < 0) bad("construct", "construction fails without a reason");
            break;
        }
        case KILL:
            o(s).~T();
            alive[s] = false;
            if (net::count(s + 1)) bad("leak:destroy", std::to_string(net::count(s + 1)) + " descriptor(s) stay open after destruction");
            break;
        case BIND1: case BIND2: {
            bool was = o(s).is_open();
            auto ends = ep(e);
            bool r = o(s).bind(ends);
            auto c = net::calls("bind");
            bool did = c.size() == 1 && c[0].res == 0;
            if (r != did) bad("bind", std::string("bind returns ") + (r ? "true" : "false") + " although the system call " + (did ? "succeeds" : "fails or is not made"));
            if (was && c.empty() && st.fail < 0 && false) bad("bind", "no system call");
            if (did && c[0].addr != ends.to_string()) bad("bind", "bound to " + c[0].addr + " instead of " + ends.to_string());
            if (r) src[s] = ends.to_string();
            break;
        }
        case CONN1: case CONN2: {
            auto ends = ep(e);
            bool r = o(s).connect(ends);
            auto c = net::calls("connect");
            bool did = c.size() == 1 && c[0].res == 0;
            if (r != did) bad("connect", std::string("connect returns ") + (r ? "true" : "false") + " although the system call " + (did ? "succeeds" : "fails or is not made"));
            if (did && c[0].addr != ends.to_string()) bad("connect", "connected to " + c[0].addr + " instead of " + ends.to_string());
            if (r) { dst[s] = ends.to_string(); if (tcp) peer[s] = dst[s]; }
            break;
        }
        case CLOSE:
            o(s).close();
            if (o(s).is_open()) bad("open:close", "a closed socket reports to be open");
            if (net::count(s + 1)) bad("leak:close", std::to_string(net::count(s + 1)) + " descriptor(s) stay open after close");
            peer[s].clear();
            break;
        case SHUT: o(s).shutdown(SHUT_RDWR); break;
        case TIMEOUT:
            o(s).timeout(1);
            if (st.fail < 0 && o(s).is_open() && net::is_open(o(s).native_handle()) && net::st.fds[o(s).native_handle()].rcvtimeo != 1000000000ll) bad("timeout", "the receive timeout is not the one set");
            break;
        case DST1: o(s).dst(ep(0)); dst[s] = ep(0).to_string(); break;
        case SRC2: o(s).src(ep(1)); src[s] = ep(1).to_string(); break;
        case SEND1: case SEND2: case SENDDST: {
            ssize_t r;
            std::string want;
            bool was = o(s).is_open();
            if constexpr (tcp) { r = o(s).write_some(buf, 5); want = peer[s]; }
            else if (st.op == SENDDST) { r = o(s).send_to(buf, 5, o(s).dst()); want = dst[s]; }
            else { auto ends = ep(e); r = o(s).send_to(buf, 5, ends); want = ends.to_string(); }
            auto c = net::calls("send");
            if (c.size() > 1) bad("send", "one message is sent " + std::to_string(c.size()) + " times");
            if (c.size() == 1 && c[0].res >= 0 && (c[0].addr != want || c[0].data != std::string("\1\2\3\4\5"))) bad("send", "data for " + want + " goes to " + c[0].addr + " or is changed");
            if ((r < 0) != (c.empty() || c[0].res < 0) || (r >= 0 && r != c[0].res)) bad("send", "the result of sending is not that of the system call");
            if (was && st.fail < 0 && c.empty() && (!tcp || !peer[s].empty())) bad("send", "an open socket does not send");
            break;
        }
        case RECV1: case RECV2: {
            int fd = -1;
            if (o(s).is_open()) {
                if constexpr (tcp) { for (auto& [f, d] : net::st.fds) if (d.owner == s + 1 && !peer[s].empty() && d.connected && d.peer == peer[s]) fd = f; }
                else fd = o(s).native_handle();
            }
            std::string data("ab\0c", 4);
            uint8_t in[8] = {};
            ssize_t r;
            std::string from;
            if constexpr (tcp) {
                if (fd >= 0 && net::is_open(fd)) net::st.fds[fd].in = data;
                r = o(s).read_some(in, 8);
                if (fd >= 0 && net::is_open(fd)) net::st.fds[fd].in.clear();
            } else {
                net::dgram(fd, ep_text(e), data);
                E f;
                r = o(s).receive_from(in, 8, f);
                from = f.to_string();
                if (fd >= 0 && net::is_open(fd)) net::st.fds[fd].dgrams.clear();
            }
            auto c = net::calls("recv");
            if (r > 0) {
                if (r != 4 || memcmp(in, data.data(), 4) != 0) bad("receive", "the received bytes are not those that arrived");
                if (!tcp && from != ep(e).to_string()) bad("receive", "the sender of a datagram is reported as " + from + " instead of " + ep(e).to_string());
            }
            bool shut = fd >= 0 && net::is_open(fd) && net::st.fds[fd].shut;
            if (r <= 0 && st.fail < 0 && fd >= 0 && !shut && !(net::st.fds[fd].listening)) bad("receive", "data that arrived is not received");
            if (r > 0 && !c.empty() && c.back().res < 0) bad("receive", "a failed receive is reported as success");
            break;
        }
        case LISTEN:
            if constexpr (tcp) {
                bool r = o(s).listen();
                bool is = o(s).is_open() && net::is_open(o(s).native_handle()) && net::st.fds[o(s).native_handle()].listening;
                if (r && !is) bad("listen", "listen succeeds although the socket does not listen");
            }
            break;
        case ACCEPT0: case ACCEPT1: case ACCEPT2:
            if constexpr (tcp) {
                if (st.op != ACCEPT0 && o(s).is_open()) net::connection(o(s).native_handle(), ep_text(e));
                bool r = o(s).accept();
                auto c = net::calls("accept");
                bool did = c.size() == 1;
                if (r != did) bad("accept", std::string("accept returns ") + (r ? "true" : "false") + " although the system call " + (did ? "succeeds" : "fails or is not made"));
                if (r) peer[s] = dst[s] = ep(e).to_string();
                if (o(s).is_open() && net::is_open(o(s).native_handle())) net::st.fds[o(s).native_handle()].incoming.clear();
                if (net::count(s + 1) > 2) bad("leak:accept", "accepting again leaves the previous connection open");
            }
            break;
        case COPY:
            if constexpr (std::is_copy_constructible_v<T>) {
                net::current = 2;
                new (mem[1]) T(o(0));
                alive[1] = true;
                src[1] = src[0]; dst[1] = dst[0]; peer[1] = peer[0];
                if (o(1).native_handle() == o(0).native_handle()) bad("copied", "a socket can be copied; both objects close the same descriptor");
            }
            break;
        case ASSIGN:
            if constexpr (std::is_copy_assignable_v<T>) {
                net::current = 2;
                o(1) = o(0);
                src[1] = src[0]; dst[1] = dst[0]; peer[1] = peer[0];
                if (o(1).native_handle() == o(0).native_handle()) bad("copied", "a socket can be assigned; both objects close the same descriptor");
            }
            break;
        case MOVE:
            if constexpr (std::is_move_constructible_v<T> && !std::is_copy_constructible_v<T>) {
                new (mem[1]) T(std::move(o(0)));
                alive[1] = true;
                for (auto& [f, d] : net::st.fds) if (d.owner == 1) d.owner = 2;
                src[1] = src[0]; dst[1] = dst[0]; peer[1] = peer[0];
                src[0] = o(0).src().to_string(); dst[0] = o(0).dst().to_string(); peer[0].clear();
            }
            break;
        case OTHER_OPEN: other = net::open_file(-1); break;
        case OTHER_CLOSE: net::close_file(other); other = -1; break;
        }
        net::current = 0;
        for (int i = 0; i < 2; i++) if (alive[i]) {
            expect_ep(i);
            bool open = o(i).is_open();
            int n = net::count(i + 1);
            if (open != (n > 0)) bad("open", std::string("a socket reports ") + (open ? "to be open while it holds no descriptor" : "not to be open while it holds a descriptor"));
            else if (open) {
                auto f = net::st.fds.find(o(i).native_handle());
                if (f == net::st.fds.end() || f->second.owner != i + 1) bad("handle", "the native handle is not a descriptor of the socket");
                if (n > 2 || (!tcp && n > 1)) bad("leak", "a socket holds " + std::to_string(n) + " descriptors");
            }
        }
        if (other >= 0 && !net::is_open(other)) bad("foreign", "a descriptor of somebody else was closed");
        return ncalls;
    }

    std::string key()
    {
        std::string k;
        for (int s = 0; s < 2; s++) {
            k += alive[s] ? 'A' : '-';
            if (alive[s]) k.append(reinterpret_cast<char*>(mem[s]), sizeof(T));
            k += src[s] + "|" + dst[s] + "|" + peer[s] + ";";
        }
        for (auto& [f, d] : net::st.fds) k += std::to_string(f) + "," + std::to_string(d.owner) + "," + (d.bound ? "b" : "") + (d.listening ? "l" : "") + (d.connected ? "c" : "") + (d.shut ? "s" : "") + d.local + d.peer + std::to_string(d.rcvtimeo) + ";";
        return k;
    }
};

std::string describe(const std::vector<Step>& p)
{
    std::string t;
    for (auto& s : p) {
        t += s.op >= OTHER_OPEN ? "" : s.slot ? "B." : "A.";
        t += NAME[s.op];
        if (s.fail >= 0) t += "[system call " + std::to_string(s.fail + 1) + " fails]";
        t += "; ";
    }
    return t;
}

template <class T>
void explore(const std::string& name, bool two, int maxdepth, std::size_t maxstates)
{
    struct Node { int parent; Step step; };
    std::vector<Node> nodes{ { -1, { 0, 0, -1 } } };
    std::unordered_map<std::string, int> seen;
    long transitions = 0;
    auto path = [&](int n) {
        std::vector<Step> p;
        for (; n > 0; n = nodes[static_cast<std::size_t>(n)].parent) p.insert(p.begin(), nodes[static_cast<std::size_t>(n)].step);
        return p;
    };
    { World<T> w; seen[w.key()] = 0; }
    std::size_t head = 0;
    int depth = 0;
    bool complete = true;
    std::vector<int> level{ 0 };
    while (head < nodes.size()) {
        auto p = path(static_cast<int>(head));
        if (static_cast<int>(p.size()) >= maxdepth || nodes.size() > maxstates) { complete = false; break; }
        depth = static_cast<int>(p.size());
        for (int op = 0; op < NOPS; op++) for (int slot = 0; slot < (two ? 2 : 1); slot++) {
            int calls = 1;
            for (int fail = -1; fail < calls; fail++) {
                World<T> w;
                hist.clear();
                for (auto& s : p) w.apply(s);
                Step st{ op, slot, fail };
                if (!w.possible(st)) break;
                hist = describe(p) + describe({ st });
                int c = w.apply(st);
                transitions++;
                if (fail < 0) calls = c;
                auto k = w.key();
                if (viols.empty() && seen.emplace(k, static_cast<int>(nodes.size())).second) nodes.push_back({ static_cast<int>(head), st });
                // the end of every history: everything is given back
                for (int s = 0; s < 2; s++) if (w.alive[s]) { hist = describe(p) + describe({ st }) + describe({ { KILL, s, -1 } }); w.apply({ KILL, s, -1 }); }
            }
        }
        head++;
        if (viols.size() >= 10) break;
    }
    for (auto& [k, d] : viols) printf("VIOL %s:%s\t%s\n", name.c_str(), k.c_str(), d.c_str());
    viols.clear();
    printf("INFO %s_depth=%d\nINFO %s_closed=%d\n", name.c_str(), depth, name.c_str(), complete ? 1 : 0);
    printf("STAT %zu %ld %ld\n", nodes.size(), transitions, transitions);
}

template <class E>
void endpoints(const char* name)
{
    long n = 0;
    auto check = [&](E& e, const std::string& ip, unsigned port, const char* how) {
        n++;
        sockaddr_storage ss;
        memset(&ss, 0, sizeof ss);
        memcpy(&ss, &e.sockaddr(), e.socklen() < sizeof ss ? e.socklen() : sizeof ss);
        std::string got = "?";
        char b[64];
        unsigned p = 0;
        if (ss.ss_family == AF_INET) { auto* s = reinterpret_cast<sockaddr_in*>(&ss); inet_ntop(AF_INET, &s->sin_addr, b, sizeof b); got = b; p = ntohs(s->sin_port); }
        if (ss.ss_family == AF_INET6) { auto* s = reinterpret_cast<sockaddr_in6*>(&ss); inet_ntop(AF_INET6, &s->sin6_addr, b, sizeof b); got = b; p = ntohs(s->sin6_port); }
        if (ss.ss_family != DOMAIN) bad("family", std::string(how) + ": the address family is wrong");
        if (got != ip) bad("address", std::string(how) + ": the address is " + got + " instead of " + ip);
        if (p != port || e.port() != port) bad("port", std::string(how) + ": the port is " + std::to_string(p) + " / " + std::to_string(e.port()) + " instead of " + std::to_string(port));
        if (e.to_string() != ip + ":" + std::to_string(port)) bad("text", std::string(how) + ": the text is '" + e.to_string() + "'");
    };
    for (unsigned port = 0; port < 65536; port++) {
        E a(IP[0], static_cast<in_port_t>(port));
        check(a, IP[0], port, "(ip, port)");
        E b(static_cast<in_port_t>(port));
        check(b, ANY, port, "(port)");
        b.address(IP[1]);
        check(b, IP[1], port, "address(ip)");
        E c;
        c.port(static_cast<in_port_t>(port));
        check(c, ANY, port, "port(p)");
        E d(a);
        check(d, IP[0], port, "copy");
    }
    E e(IP[0], 7);
    e.address("");
    check(e, ANY, 7, "address(\"\")");
    e.address(IP[1]);
    e.address("no address");
    check(e, ANY, 7, "address(invalid)");
    for (const char* s : { "no address", "1.2.3", "256.1.1.1", "1.2.3.4.5", "10.0.0.1 ", ":::", "localhost" }) {
        bool threw = false;
        try { E x(s, 1); }
        catch (const std::exception&) { threw = true; }
        n++;
        if (!threw) bad("invalid", std::string("the invalid address '") + s + "' is accepted");
    }
    for (auto& [k, d] : viols) printf("VIOL %s:%s\t%s\n", name, k.c_str(), d.c_str());
    viols.clear();
    printf("STAT %ld %ld %ld\n", n, n, n);
}

}  // namespace

int main(int argc, char** argv)
{
    bool thorough = argc > 1 && std::string(argv[1]) == "thorough";
    std::string what = argc > 2 ? argv[2] : "";
    // bind and connect report failures on the terminal
    std::cout.setstate(std::ios::failbit);
    std::cerr.setstate(std::ios::failbit);
    net::on = true;
    net::violation = [](const std::string& k, const std::string& d) { if (k != "sigpipe") bad(k, d); };  // (for C12)
    // a process that has closed its standard descriptors gets 0, 1 and 2 for its sockets
    if (what.back() == '0') { net::first = 0; what.pop_back(); }
    std::string low = net::first ? "" : "_low";
    if (what == "udp1") explore<UDP>("udp" + low, false, 20, 400000);
    if (what == "tcp1") explore<TCP>("tcp" + low, false, 20, 400000);
    if (what == "udp2") explore<UDP>("udp_two" + low, true, thorough ? 8 : 6, 4000000);
    if (what == "tcp2") explore<TCP>("tcp_two" + low, true, thorough ? 8 : 6, 4000000);
    net::on = false;
    if (what == "endpoints") { endpoints<typename UDP::endpoint_type>("udp_endpoint"); endpoints<typename TCP::endpoint_type>("tcp_endpoint"); }
}
