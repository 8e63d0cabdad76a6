// C13: a generated controllee against every bounded sequence of messages, failures, delays and schedules.
#include <cerrno>
#include <iostream>
#include <memory>

#define DEV_CONTROLLEE
#include "all_dev.hpp"

#include "nats_fake.hpp"
#include "net_fake.hpp"
#include "sched.hpp"

#include <vrtgen/nats.hpp>

using namespace g;
using Q = vt::Quiet;

namespace {

bool thorough = false;
const char* const FROM[] = { "10.0.0.9:5000", "10.0.0.8:5001" };

std::string hex(const std::string& s)
{
    static const char* d = "0123456789abcdef";
    std::string r;
    for (unsigned char c : s) {
        if (r.size() >= 2000) return r + "... (" + std::to_string(s.size()) + " bytes)";
        r += d[c >> 4]; r += d[c & 15];
    }
    return r;
}

struct Msg {
    std::string data;
    int ctl = -1;           // a command for this control, or something else
    Req r{};
    uint32_t id = 0;
    bool wait = false;      // no message: time passes
    bool fault = false;     // no message: the receive fails
    bool silent = false;    // NATS: without reply subject
    int from = 0;
    std::string what;
};

// what happened
struct Event { char kind; int ctl; uint32_t id; std::string bytes, to; };
std::vector<Event> handlers, replies;

std::vector<Req> requests(int c)
{
    std::vector<Req> v;
    auto& s = SPEC[c];
    for (int i = 0; i < 8; i++) {
        Req r{ (i & 1) != 0, (i & 2) != 0, (i & 4) != 0 };
        if ((r.v && !s.v) || (r.x && !s.x) || (r.s && !s.s) || (!r.v && s.v == 2) || (!r.x && s.x == 2) || (!r.s && s.s == 2)) continue;
        v.push_back(r);
    }
    return v;
}

std::string word(uint32_t w) { std::string s(4, '\0'); for (int i = 0; i < 4; i++) s[static_cast<std::size_t>(i)] = static_cast<char>(w >> (24 - 8 * i)); return s; }
uint32_t get(const std::string& s, std::size_t at) { uint32_t w = 0; for (std::size_t i = 0; i < 4 && at + i < s.size(); i++) w = w << 8 | static_cast<uint8_t>(s[at + i]); return w; }

Msg cmd(int c, Req r, uint32_t id) { Msg m; m.ctl = c; m.r = r; m.id = id; m.data = command(c, r, id); m.what = std::string(SPEC[c].name) + (r.v ? "v" : "") + (r.x ? "x" : "") + (r.s ? "s" : ""); return m; }
Msg other(std::string d, const char* what) { Msg m; m.data = std::move(d); m.what = what; return m; }

// every kind of message; whole: only what keeps the framing of a stream
std::vector<Msg> kinds(uint32_t id, bool whole)
{
    std::vector<Msg> v;
    for (int c = 0; c < NC; c++) for (auto r : requests(c)) v.push_back(cmd(c, r, id));
    Req all = requests(0).back();
    auto a = command(0, all, id);
    { f::packets::Other o; o.temperature(3.5); v.push_back(other(str(o.data()), "context")); }
    { f::packets::OtherCtl o; o.req_v(true); o.req_x(true); o.temperature(3.5); o.message_id(id); v.push_back(other(str(o.data()), "foreign-control")); }
    for (char k : { 'v', 'x', 's' }) { auto d = ack(0, k, id); if (!d.empty()) { v.push_back(other(d, "own-acknowledge")); break; } }
    { auto d = a; d[0] = static_cast<char>((d[0] & 0x0f) | 0x70); v.push_back(other(d, "extension-command")); }
    { auto d = a; d[0] = static_cast<char>(0xf0 | (d[0] & 0x0f)); v.push_back(other(d, "reserved-type")); }
    { Msg m; m.wait = true; m.what = "silence"; v.push_back(m); }
    if (TRANSPORT != 'n') { Msg m; m.fault = true; m.what = "failure"; v.push_back(m); }
    if (whole) {
        v.push_back(other(word(0), "zeros"));
        v.push_back(other(word(1), "one-word"));
        v.push_back(other(word(0xf0000003) + word(0xffffffff) + word(0), "garbage"));
    } else {
        v.push_back(other(a.substr(0, a.size() - 4), "truncated-by-a-word"));
        v.push_back(other(a.substr(0, a.size() - 1), "truncated-by-a-byte"));
        v.push_back(other(a.substr(0, 18), "truncated-in-prologue"));
        v.push_back(other(a.substr(0, 3), "truncated-in-header"));
        { auto d = a; d[3] = static_cast<char>(d[3] + 1); v.push_back(other(d, "size-too-large")); }
        { auto d = a; d[2] = static_cast<char>(0xff); v.push_back(other(d, "size-much-too-large")); }
        { auto d = a; d[3] = 2; v.push_back(other(d, "size-too-small")); }
        if (TRANSPORT == 'u') v.push_back(other("", "empty"));
        if (TRANSPORT == 'n') {
            // no reply subject
            auto m = cmd(0, all, id);
            m.silent = true;
            m.what += "-silent";
            v.push_back(m);
        }
    }
    return v;
}

struct Rig {
    std::unique_ptr<Stub> dev;
    int fd = -1;

    template <class D>
    static Rig make(bool connect = true)
    {
        Rig r;
#if DEV_NATS
        (void)connect;
        r.dev = std::make_unique<D>("nats://here", "commands");
#else
        r.dev = std::make_unique<D>(typename std::remove_reference_t<decltype(std::declval<D&>().cmd_socket())>::endpoint_type{ "10.0.0.1", 5000 });
        auto& s = r.dev->cmd_socket();
        r.fd = s.native_handle();
#if DEV_TCP
        if (connect) {
            s.listen();
            { Q q; net::connection(r.fd, FROM[0]); }
            if (!s.accept()) vt::fail("accept", "no connection is accepted");
            Q q;
            for (auto& [f, d] : net::st.fds) if (d.accepted) r.fd = f;
        }
#else
        (void)connect;
#endif
#endif
        Q q;
        net::st.log.clear();
        return r;
    }
};

bool faulting = false;

void put(int fd, const Msg& m)
{
    Q q;
    if (m.wait || m.fault) return;
    if (TRANSPORT == 'u') net::dgram(fd, FROM[m.from], m.data);
    else if (TRANSPORT == 't') net::bytes(fd, m.data);
    else { (void)fd; fake::arrive("commands", m.data, m.silent ? "" : m.from ? "reply-1" : "reply-0"); }
}

void pass(int64_t ns) { vt::block("time", [] { return false; }, vt::now() + ns); }

void begin()
{
    Q q;
    net::reset();
    fake::reset();
    handlers.clear();
    replies.clear();
    faulting = false;
    net::current = 1;
    net::st.fail_takes = 100000000;
    net::st.fault = [](const char* c, int) { if (c[0] == 'r' && faulting) { faulting = false; return EIO; } return 0; };
    net::st.on_send = [](int, const std::string& to, const std::string& d) { replies.push_back({ 'r', -1, 0, d, to }); };
    fake::state.on_publish = [](const fake::Sent& s) { replies.push_back({ 'r', -1, 0, s.data, s.subject }); };
}
void end() { fake::finish(); Q q; net::current = 0; if (net::count(1)) vt::fail("leak", "a descriptor stays open"); }

// the identifiers of an acknowledge, straight from its bytes
void identifiers(const std::string& a, const Msg& m, char kind)
{
    auto& s = SPEC[m.ctl];
    auto at = static_cast<std::size_t>(s.cam);
#ifdef DEV_TIMESTAMP
    at += 12;
#endif
    auto cam = get(a, at);
    auto c0 = get(m.data, at);
    if (get(a, 4) != get(m.data, 4)) vt::fail("stream-id", "the acknowledge carries another stream identifier than its command");
    if ((get(a, 0) >> 28) != 6 || !((get(a, 0) >> 26) & 1)) vt::fail("not-an-acknowledge", "the reply is not an acknowledge packet: " + hex(a));
    if ((cam >> 28) != (c0 >> 28)) vt::fail("identifier-formats", "the acknowledge's identifier formats differ from its command's");
    uint32_t flags = (cam >> 18) & 7, want = kind == 'v' ? 4 : kind == 'x' ? 2 : 1;
    if (flags != want) vt::fail("flag", std::string("the ") + kind + " acknowledge carries the flags " + std::to_string(flags));
    for (std::size_t i = 0; i < static_cast<std::size_t>(1 + s.ce + s.cr); i++)
        if (get(a, at + 4 + 4 * i) != get(m.data, at + 4 + 4 * i)) vt::fail(i == 0 ? "message-id" : "identifiers", "the acknowledge carries other identifiers than its command");
}

// the messages have been delivered, all of them (or the first n messages and perhaps part of one more)
void judge(const std::vector<Msg>& in, bool stub = false, bool prefix = false)
{
    Q q;
    std::vector<Event> h, r;
    std::vector<std::pair<const Msg*, char>> who;
    for (auto& m : in) {
        if (m.ctl < 0) continue;
        auto reply = [&](char k) {
            if (m.silent) return;
            r.push_back({ 'r', m.ctl, m.id, stub ? g::stub(m.ctl, k, m.id) : g::ack(m.ctl, k, m.id), TRANSPORT == 'n' ? (m.from ? "reply-1" : "reply-0") : FROM[m.from] });
            who.push_back({ &m, k });
        };
        if (m.r.v) { h.push_back({ 'v', m.ctl, m.id, m.data, "" }); reply('v'); }
        if (m.r.x || m.r.s) h.push_back({ 'x', m.ctl, m.id, m.data, "" });
        if (m.r.x) reply('x');
        if (m.r.s) reply('s');
    }
    auto say = [&](const std::vector<Event>& v) { std::string s; for (auto& e : v) s += std::string(e.kind == 'r' ? "" : e.kind == 'v' ? "validate " : "execute ") + (e.kind == 'r' ? hex(e.bytes) + " to " + e.to : SPEC[e.ctl].name + std::string(" ") + std::to_string(e.id)) + "; "; return s; };
    std::string seq;
    for (auto& m : in) seq += m.what + " ";
    if (!stub) {
        bool bad = prefix ? handlers.size() > h.size() : handlers.size() != h.size();
        for (std::size_t i = 0; !bad && i < handlers.size(); i++) bad = handlers[i].kind != h[i].kind || handlers[i].ctl != h[i].ctl || handlers[i].id != h[i].id;
        if (bad) vt::fail("handlers", "for [" + seq + "] the handlers called are [" + say(handlers) + "] instead of [" + say(h) + "]");
        for (std::size_t i = 0; i < handlers.size(); i++)
            if (handlers[i].bytes != h[i].bytes) vt::fail("command", "for [" + seq + "] a handler gets the packet " + hex(handlers[i].bytes) + " instead of " + hex(h[i].bytes));
    }
    if (TRANSPORT == 't') {
        std::string got, want;
        for (auto& e : replies) got += e.bytes;
        for (auto& e : r) want += e.bytes;
        if (prefix ? want.compare(0, got.size(), got) != 0 : got != want) vt::fail("replies", "for [" + seq + "] the replies are " + hex(got) + " instead of " + hex(want));
    } else {
        bool bad = prefix ? replies.size() > r.size() : replies.size() != r.size();
        for (std::size_t i = 0; !bad && i < replies.size(); i++) bad = replies[i].bytes != r[i].bytes || replies[i].to != r[i].to;
        if (bad) vt::fail("replies", "for [" + seq + "] the replies are [" + say(replies) + "] instead of [" + say(r) + "]");
    }
    if (!prefix) for (std::size_t i = 0; i < r.size(); i++) identifiers(r[i].bytes, *who[i].first, who[i].second);
}

std::vector<Msg> choose_messages(int n, bool whole, bool froms)
{
    std::vector<Msg> v;
    for (int i = 0; i < n; i++) {
        std::vector<Msg> k;
        { Q q; k = kinds(static_cast<uint32_t>(7 + i), whole); }
        int c = vt::choose(static_cast<int>(k.size()), "message");
        Q q;
        v.push_back(k[static_cast<std::size_t>(c)]);
        if (froms) v.back().from = i & 1;
    }
    return v;
}

// every sequence of messages; all there when the listener starts, or one after the other
void sequences(int n, bool queued)
{
    begin();
    auto v = choose_messages(n, TRANSPORT == 't', TRANSPORT != 't');
    {
        auto rig = Rig::make<Handlers>();
        if (queued) for (auto& m : v) put(rig.fd, m);
        rig.dev->vrt_listen();
        if (!queued)
            for (auto& m : v) {
                { Q q; if (m.fault) faulting = true; }
                put(rig.fd, m);
                pass(m.wait ? 7000000000 : 4000000000);
            }
        pass(20000000000);
        judge(v);
    }
    judge(v);
    end();
}

// commands and acknowledges of every magnitude, in chunks of every magnitude
void large()
{
    static const std::vector<std::size_t> FULL{ 100, 361, 500, 1010, 2040, 4090, 8180, 16200, 16370, 16390, 32760, 65400 }, FEW{ 361, 2040, 16200, 16390, 65400 }, NATS{ 2040, 65400 };
    auto& SIZES = thorough ? FULL : TRANSPORT == 'n' ? NATS : FEW;
    begin();
    { auto c = vt::choose(static_cast<int>(SIZES.size()) - (TRANSPORT == 'u' ? thorough ? 4 : 2 : 0), "size"); Q q; big = SIZES[c]; }
    const std::size_t chunks[] = { 1u << 30, 1460, 65536, 4096 };
    const std::size_t chunk = TRANSPORT == 't' ? chunks[vt::choose(thorough ? 4 : 2, "chunk")] : 0;
    const int order = vt::choose(TRANSPORT == 'n' ? 2 : 3, "another");   // before, after, not at all
    {
        std::vector<Msg> v;
        {
            Q q;
            v.push_back(cmd(0, requests(0).back(), 7));
            v.push_back(cmd(NC - 1, requests(NC - 1).back(), 8));
            if (order == 0) std::swap(v[0], v[1]);
            if (order == 2) v.pop_back();
            if (chunk) net::st.split = [=](const char*, std::size_t n) { return n < chunk ? n : chunk; };
        }
        auto rig = Rig::make<Handlers>();
        rig.dev->vrt_listen();
        for (auto& m : v) { put(rig.fd, m); pass(4000000000); }
        pass(20000000000);
        judge(v);
    }
    { Q q; big = 0; }
    end();
}

// two commands (or one and something else) over a stream cut anywhere
void segments(bool delayed)
{
    begin();
    auto v = choose_messages(1, true, false);
    {
        std::vector<Msg> k;
        { Q q; k = kinds(8, true); }
        auto n = v[0].wait || v[0].fault ? 1 : 2;
        if (n == 2) {
            Q q;
            v.push_back(cmd(NC - 1, requests(NC - 1).back(), 8));
        }
    }
    {
        auto rig = Rig::make<Handlers>();
        std::string all;
        { Q q; for (auto& m : v) all += m.data; }
        rig.dev->vrt_listen();
        int len = static_cast<int>(all.size());
        int a = vt::choose(len + 1, "cut");
        int b = delayed ? len : a + vt::choose(len - a + 1, "cut");
        int at = 0;
        for (int e : { a, b, len }) {
            Q q;
            if (e > at) { net::bytes(rig.fd, all.substr(static_cast<std::size_t>(at), static_cast<std::size_t>(e - at))); pass(delayed ? 8000000000 : 1000000); }
            at = e;
        }
        pass(20000000000);
        judge(v);
    }
    end();
}

// replies leave in pieces
void short_writes()
{
    begin();
    std::vector<Msg> v;
    { Q q; v.push_back(cmd(0, requests(0).back(), 7)); v.push_back(cmd(NC - 1, requests(NC - 1).back(), 8)); }
    {
        auto rig = Rig::make<Handlers>();
        int n = 1 + vt::choose(40, "write"), rest = 1 + vt::choose(5, "write") * 9;
        auto k = std::make_shared<int>(0);
        { Q q; net::st.split = [=](const char* c, std::size_t m) { if (c[0] == 'r') return m; auto w = static_cast<std::size_t>((*k)++ == 0 ? n : rest); return w < m ? w : m; }; }
        for (auto& m : v) put(rig.fd, m);
        rig.dev->vrt_listen();
        pass(20000000000);
        judge(v);
    }
    end();
}

// the connection ends or breaks, anywhere in a command
void hangups()
{
    begin();
    std::vector<Msg> v;
    { Q q; v.push_back(cmd(0, requests(0).back(), 7)); v.push_back(cmd(NC - 1, requests(NC - 1).back(), 8)); }
    {
        auto rig = Rig::make<Handlers>();
        int len = static_cast<int>(v[1].data.size());
        int n = vt::choose(len, "arrives");
        bool reset = vt::choose(2, "reset");
        bool failing = vt::choose(2, "failures");
        { Q q; net::bytes(rig.fd, v[0].data); }
        rig.dev->vrt_listen();
        pass(1000000000);
        { Q q; net::bytes(rig.fd, v[1].data.substr(0, static_cast<std::size_t>(n))); net::hangup(rig.fd, reset); faulting = failing; }
        pass(20000000000);
        Q q;
        v.pop_back();
        judge(v);
    }
    end();
}

// messages arrive while the listener starts
void starting(int n)
{
    begin();
    std::vector<Msg> v;
    { Q q; for (int i = 0; i < n; i++) v.push_back(cmd(i % NC, requests(i % NC).back(), static_cast<uint32_t>(7 + i))); }
    {
        auto rig = Rig::make<Handlers>();
        int fd = rig.fd;
        vt::daemon([=] { for (auto& m : v) { vt::point("network"); put(fd, m); } }, "network");
        rig.dev->vrt_listen();
        if (vt::choose(2, "again")) rig.dev->vrt_listen();
        pass(20000000000);
        judge(v);
    }
    judge(v);
    end();
}

// two threads start the listener
void both_start()
{
    begin();
    std::vector<Msg> v;
    { Q q; v.push_back(cmd(0, requests(0).back(), 7)); }
    {
        auto rig = Rig::make<Handlers>();
        auto* d = rig.dev.get();
        put(rig.fd, v[0]);
        std::thread t([d] { d->vrt_listen(); });
        d->vrt_listen();
        t.join();
        pass(20000000000);
        judge(v);
    }
    end();
}

// destroyed at any moment: what was done is a prefix of what would have been done, and nothing follows
void destroyed(int n, bool listen)
{
    begin();
    std::vector<Msg> v;
    { Q q; for (int i = 0; i < n; i++) v.push_back(cmd(i % NC, requests(i % NC).back(), static_cast<uint32_t>(7 + i))); }
    {
        auto rig = Rig::make<Stub>();
        int fd = rig.fd;
        for (auto& m : v) put(fd, m);
        if (listen) rig.dev->vrt_listen();
    }
    std::size_t done;
    { Q q; done = replies.size(); }
    judge(v, true, true);
    pass(20000000000);
    Q q;
    if (replies.size() != done) vt::fail("after-destruction", "a reply is sent after the destruction");
    if (!listen && done) vt::fail("not-listening", "a command is answered although nobody listens");
    end();
}

// the generated handlers as they are
void stubs()
{
    begin();
    std::vector<Msg> v;
    { Q q; int c = 0; v.push_back(cmd(c, requests(c).back(), 7)); }
    {
        auto rig = Rig::make<Stub>();
        put(rig.fd, v[0]);
        rig.dev->vrt_listen();
        pass(20000000000);
        judge(v, true);
    }
    end();
}

// construction fails when the command transport does
void constructing()
{
    begin();
    int k = vt::choose(3, "failure");
    {
        Q q;
        if (TRANSPORT == 'n') { fake::state.fail_connect = k == 1; fake::state.fail_subscribe = k == 2 ? 0 : -1; }
        else net::st.fault = [k](const char* c, int) { return (k == 1 && c[0] == 'b') || (k == 2 && c[0] == 's' && c[1] == 'o' && c[2] == 'c') ? EADDRINUSE : 0; };
    }
    bool threw = false;
    try { auto rig = Rig::make<Handlers>(false); }
    catch (const std::exception&) { threw = true; }
    if (threw != (k != 0)) vt::fail("construction", k ? "the constructor does not report that the command transport fails" : "the constructor fails");
    end();
}

}  // namespace

void g::handled(char kind, int ctl, uint32_t id, std::string bytes)
{
    vt::release(&handlers);
    Q q;
    handlers.push_back({ kind, ctl, id, std::move(bytes), "" });
}

void g::idle() { vt::acquire(&handlers); }

int main(int argc, char** argv)
{
    thorough = argc > 1 && std::string(argv[1]) == "thorough";
    std::string only = argc > 2 ? argv[2] : "";
    std::vector<std::pair<std::string, std::function<void(const std::string&)>>> all;
    auto add = [&](const std::string& n, std::function<void()> f, int p = 0) {
        all.push_back({ n, [=](const std::string& x) {
            vt::Bounds b;
            b.preempt = p + (thorough && p ? 1 : 0);
            b.early = 0;
            b.spurious = 0;
            b.seconds = thorough ? 500 : 50;
            vt::deepen(x, f, b);
        } });
    };
    std::cout.setstate(std::ios::failbit);
    net::on = true;
    add("sequences_1", [] { sequences(1, false); });
    add("sequences_2", [] { sequences(2, false); });
    add(thorough ? "sequences_3" : "sequences_2_queued", [] { sequences(thorough ? 3 : 2, !thorough); });
    if (thorough) add("sequences_3_queued", [] { sequences(3, true); });
    if (TRANSPORT == 't') {
        add("segments", [] { segments(false); });
        add("segments_delayed", [] { segments(true); });
        add("short_writes", [] { short_writes(); });
        add("hangups", [] { hangups(); });
    }
    if (g::LARGE) add("large", [] { large(); });
    add("starting", [] { starting(2); }, 2);
    add("both_start", [] { both_start(); }, 2);
    add("destroyed", [] { destroyed(1, true); }, 2);
    add("destroyed_2", [] { destroyed(2, true); }, 1);
    add("never_started", [] { destroyed(1, false); }, 1);
    add("stubs", [] { stubs(); });
    add("constructing", [] { constructing(); });
    if (only == "list") {
        for (auto& [n, f] : all) printf("%s\n", n.c_str());
        return 0;
    }
    for (auto& [n, f] : all) if (only.empty() || n == only) f(n);
}
