// C14: a generated controller against every bounded sequence of commands, datagrams, failures and schedules.
#include <cerrno>
#include <iostream>
#include <memory>
#include <tuple>

#define DEV_CONTROLLER
#include "all_dev.hpp"

#include "nats_fake.hpp"
#include "net_fake.hpp"
#include "sched.hpp"

#include <vrtgen/nats.hpp>

using namespace g;
using Q = vt::Quiet;

namespace {

bool thorough = false;
const std::string PEER = "10.0.0.9:5000";

std::string hex(const std::string& s)
{
    static const char* d = "0123456789abcdef";
    std::string r;
    for (unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; }
    return r;
}

std::vector<Req> requests(int c)
{
    std::vector<Req> v;
    auto& s = SPEC[c];
    for (int i = 0; i < 8; i++) {
        Req r{ (i & 1) != 0, (i & 2) != 0, (i & 4) != 0 };
        if ((r.v && !s.v) || (r.x && !s.x) || (r.s && !s.s) || (!r.v && s.v == 2) || (!r.x && s.x == 2) || (!r.s && s.s == 2)) continue;
        v.push_back(r);
    }
    return v;
}

std::string word(uint32_t w) { std::string s(4, '\0'); for (int i = 0; i < 4; i++) s[static_cast<std::size_t>(i)] = static_cast<char>(w >> (24 - 8 * i)); return s; }

std::vector<std::string> replies(int c, Req r, uint32_t id)
{
    std::vector<std::string> v;
    if (r.v) v.push_back(ack(c, 'v', id));
    if (r.x) v.push_back(ack(c, 'x', id));
    if (r.s) v.push_back(ack(c, 's', id));
    return v;
}

// where a command's message identifier is
std::size_t id_at(int c)
{
    auto at = static_cast<std::size_t>(SPEC[c].cam);
#ifdef DEV_TIMESTAMP
    at += 12;
#endif
    return at + 4;
}
uint32_t id_of(int c, const std::string& s)
{
    uint32_t w = 0;
    for (std::size_t i = 0; i < 4; i++) w = w << 8 | (id_at(c) + i < s.size() ? static_cast<unsigned char>(s[id_at(c) + i]) : 0u);
    return w;
}
// the command as it has to be sent: its message identifier, and the configured controller identifier
std::string expected(int c, Req r, uint32_t k, uint32_t id, const std::string& controller)
{
    auto s = command(c, r, k);
    s.replace(id_at(c), 4, word(id));
    if (SPEC[c].cr) s.replace(id_at(c) + 4 + 4 * static_cast<std::size_t>(SPEC[c].ce), controller.size(), controller);
    return s;
}
std::string controller_words(uint32_t id)
{
    if (CRFMT == 0) return "";
    if (id == 0) return std::string(static_cast<std::size_t>(CRFMT) * 4, '\0');
    if (CRFMT == 1) return word(0x2000 + id);
    std::string b(16, '\0');
    uuid(0x2000u + id).pack_into(reinterpret_cast<uint8_t*>(b.data()));
    return b;
}

void pass(int64_t ns) { vt::block("time", [] { return false; }, vt::now() + ns); }

bool faulting = false, publish_error = false;
std::function<void(const std::string& to, const std::string& data, const std::string& reply)> on_command;
struct Sent { std::string to, data; };
std::vector<Sent> sent;

void begin()
{
    Q q;
    net::reset();
    fake::reset();
    sent.clear();
    faulting = publish_error = false;
    on_command = nullptr;
    net::current = 1;
    net::st.fail_takes = 100000000;
    net::st.fault = [](const char* c, int) { if (c[0] == 'r' && faulting) { faulting = false; return EIO; } return 0; };
    net::st.on_send = [](int, const std::string& to, const std::string& d) { sent.push_back({ to, d }); if (on_command) on_command(to, d, ""); };
    fake::state.on_publish = [](const fake::Sent& s) { sent.push_back({ s.subject, s.data }); if (on_command) on_command(s.subject, s.data, s.reply); };
}
void end() { fake::finish(); Q q; net::current = 0; if (net::count(1)) vt::fail("leak", "a descriptor stays open"); }

struct Rig {
    std::unique_ptr<Ctrl> c;
    int cmd = -1, rx = -1;
    explicit Rig(bool connect = true)
    {
#if DEV_NATS
        c = std::make_unique<Ctrl>("nats://here");
        if (connect) c->controllee_endpoint("controllee");
#else
        using EP = typename std::remove_reference_t<decltype(std::declval<Ctrl&>().cmd_socket())>::endpoint_type;
        c = std::make_unique<Ctrl>(EP{ "10.0.0.1", 4000 });
        if (connect) c->controllee_endpoint(EP{ "10.0.0.9", 5000 });
        cmd = c->cmd_socket().native_handle();
#endif
        if constexpr (DCTX) data(*c);
    }
    template <class C>
    void data(C& d)
    {
        using EP = typename std::remove_reference_t<decltype(d.data_ctxt_recv_socket())>::endpoint_type;
        d.data_ctxt_src_endpoint(EP{ "10.0.0.1", 4001 });
        d.data_ctxt_dst_endpoint(EP{ "10.0.0.7", 4002 });
        rx = d.data_ctxt_recv_socket().native_handle();
    }
};

// ------------------------------------------------------------------ commands
// what becomes of a command
enum Fate { ANSWERED, SILENT, WRONG, STALE, FAILS, FATES };

void commands(int n)
{
    begin();
    {
        Rig rig;
        uint32_t cid = 0, next = 1, unsent = 0;     // an identifier may or may not be used up by a command that could not be sent
        for (uint32_t k = 1; k <= static_cast<uint32_t>(n); k++) {
            std::vector<std::tuple<int, Req, int>> all;
            { Q q; for (int c = 0; c < NC; c++) for (auto r : requests(c)) for (int f = 0; f < FATES; f++) if (f == ANSWERED || f == FAILS || r.v || r.x || r.s) all.push_back({ c, r, f }); }
            auto [c, r, fate] = all[static_cast<std::size_t>(vt::choose(static_cast<int>(all.size()), "command"))];
            if (vt::choose(2, "controller id")) { cid = 50 + k; set_controller_id(*rig.c, cid); }
            std::vector<std::string> v;
            {
                Q q;
                sent.clear();
                int fd = rig.cmd, c2 = c, fate2 = fate;
                Req r2 = r;
                on_command = [=, &v](const std::string&, const std::string& d, const std::string& reply) {
                    auto id = id_of(c2, d);
                    v = replies(c2, r2, id);
                    if (fate2 == SILENT) return;
                    auto w = v;
                    if (fate2 == WRONG) w.back() = command(c2, r2, id);
                    if (fate2 == STALE) w.back() = replies(c2, r2, id - 1).back();
                    if (TRANSPORT == 'n') vt::daemon([=] { for (auto& x : w) fake::arrive(reply, x); }, "network");
                    else for (auto& x : w) { if (TRANSPORT == 'u') net::dgram(fd, PEER, x); else net::bytes(fd, x); }
                };
                bool fails = fate == FAILS;
                fake::state.fail_publish = fails;
                net::st.fault = [=](const char* call, int f) { return fails && f == fd && (call[0] == 's' || call[0] == 'w') ? EPERM : 0; };
            }
            bool threw = false;
            Acks out;
            try { g::send(*rig.c, c, r, k, out); }
            catch (const std::exception&) { threw = true; }
            Q q;
            std::string name = std::string(SPEC[c].name) + (r.v ? "v" : "") + (r.x ? "x" : "") + (r.s ? "s" : "") + " as command " + std::to_string(k);
            if (fate == FAILS) {
                if (!threw) vt::fail("failure", name + " cannot be sent but no error is reported");
                unsent++;
                continue;
            }
            if (sent.size() != 1) vt::fail("sent", name + " is sent " + std::to_string(sent.size()) + " times");
            auto id = id_of(c, sent[0].data);
            if (id < next || id > next + unsent) vt::fail("message-id", name + " has message identifier " + std::to_string(id) + " after " + std::to_string(next - 1));
            next = id + 1;
            unsent = 0;
            auto want = expected(c, r, k, id, controller_words(cid));
            if (sent[0].data != want) vt::fail("command", name + " is sent as " + hex(sent[0].data) + " instead of " + hex(want));
            if (sent[0].to != (TRANSPORT == 'n' ? "controllee" : PEER)) vt::fail("destination", name + " is sent to " + sent[0].to);
            if (fate != ANSWERED) {
                if (!threw) vt::fail("accepted", name + " gets no proper acknowledges but no error is reported");
                continue;
            }
            if (threw) vt::fail("answered", name + " fails although every acknowledge arrived");
            if (out.packet != want) vt::fail("packet", name + " is left in the caller's packet as " + hex(out.packet));
            std::size_t i = 0;
            auto one = [&](bool req, bool has, const std::optional<std::string>& a, const char* kind) {
                if (!req) { if (a) vt::fail("unrequested", name + " yields an acknowledge " + kind + " nobody requested"); return; }
                if (!has || !a) vt::fail("missing", name + " yields no acknowledge " + kind);
                if (*a != v[i++]) vt::fail("content", name + " yields the acknowledge " + hex(*a) + " instead of " + hex(v[i - 1]));
            };
            one(r.v, out.has_v, out.v, "V");
            one(r.x, out.has_x, out.x, "X");
            one(r.s, out.has_s, out.s, "S");
        }
    }
    end();
}

// ------------------------------------------------------------------ data and context packets
#if DEV_HAS_DCTX
struct Got { int t, who; std::string bytes; };
std::vector<Got> got;

struct Gram { std::string data; int t = -1; bool wait = false, fault = false; std::string what; };
struct Step { Gram g; int op = 0; int t = 0; };   // op 0: datagram, 1: enable, 2: disable, 3: listen, 4: unlisten

std::vector<Gram> grams()
{
    std::vector<Gram> v;
    auto other = [&](std::string d, const char* w) { Gram x; x.data = std::move(d); x.what = w; v.push_back(x); };
    for (int t = 0; t < NT; t++) for (int k : { 0, 1, 3, t == 0 ? 16000 : 4 }) { Gram x; x.data = dctx(t, k); x.t = t; x.what = std::string(TYPE[t]) + std::to_string(k); v.push_back(x); }
    auto a = dctx(0, 3), b = dctx(1, 1);
    { f::packets::Other o; o.temperature(3.5); other(str(o.data()), "context"); }
    other(command(0, requests(0).back(), 7), "command");
    other(a.substr(0, a.size() - 4), "data-truncated-by-a-word");
    other(a.substr(0, 4), "data-header");
    other(b.substr(0, b.size() - 4), "context-truncated-by-a-word");
    other(b.substr(0, b.size() - 1), "context-truncated-by-a-byte");
    other(b.substr(0, 14), "context-truncated-in-prologue");
    other(b.substr(0, 2), "truncated-in-header");
    { auto d = b; d[3] = static_cast<char>(d[3] + 1); other(d, "size-too-large"); }
    { auto d = b; d[2] = static_cast<char>(0xff); other(d, "size-much-too-large"); }
    { auto d = b; d[3] = 2; other(d, "size-too-small"); }
    { auto d = b; d[0] = static_cast<char>(0xf0 | (d[0] & 0x0f)); other(d, "reserved-type"); }
    other("", "empty");
    other(word(0), "zeros");
    other(word(0xffffffff) + word(0xffffffff) + word(0xffffffff), "ones");
    { Gram x; x.wait = true; x.what = "silence"; v.push_back(x); }
    { Gram x; x.fault = true; x.what = "failure"; v.push_back(x); }
    return v;
}

void on_packet(int t, int who, const std::string& b)
{
    Q q;
    got.push_back({ t, who, b });
}
void attach(Ctrl& c, int t, int who) { g::listen(c, t, [t, who](std::string b) { on_packet(t, who, b); }); }

std::string say(const std::vector<Got>& v) { std::string s; for (auto& e : v) s += std::string(TYPE[e.t]) + "(" + std::to_string(e.who) + ") " + hex(e.bytes) + "; "; return s; }
void same(const std::vector<Got>& want, const std::string& seq, bool prefix = false)
{
    Q q;
    bool bad = prefix ? got.size() > want.size() : got.size() != want.size();
    for (std::size_t i = 0; !bad && i < got.size(); i++) bad = got[i].t != want[i].t || got[i].bytes != want[i].bytes || (want[i].who >= 0 && got[i].who != want[i].who);
    if (bad) vt::fail("listeners", "for [" + seq + "] the listeners get [" + say(got) + "] instead of [" + say(want) + "]");
}

// every sequence of datagrams
void datagrams(int n, bool queued)
{
    begin();
    {
        Rig rig;
        std::vector<Got> want;
        std::string seq;
        { Q q; got.clear(); }
        for (int t = 0; t < NT; t++) attach(*rig.c, t, 0);
        std::vector<Gram> v;
        for (int i = 0; i < n; i++) {
            std::vector<Gram> all;
            { Q q; all = grams(); }
            int k = vt::choose(static_cast<int>(all.size()), "datagram");
            Q q;
            v.push_back(all[static_cast<std::size_t>(k)]);
            seq += v.back().what + " ";
            if (v.back().t >= 0) want.push_back({ v.back().t, 0, v.back().data });
        }
        auto put = [&](Gram& x) { Q q; if (x.fault) faulting = true; else if (!x.wait) net::dgram(rig.rx, "10.0.0.7:9", x.data); };
        if (queued) for (auto& x : v) put(x);
        rig.c->enable_receive();
        if (!queued) for (auto& x : v) { put(x); pass(x.wait ? 7000000000 : 4000000000); }
        pass(20000000000);
        same(want, seq);
        rig.c->disable_receive();
        same(want, seq);
    }
    end();
}

// every sequence of datagrams, enabling, disabling, registering and unregistering
void control(int n)
{
    begin();
    {
        Rig rig;
        std::vector<Got> want;
        std::vector<Got> queue;      // arrived while nobody receives
        std::string seq;
        { Q q; got.clear(); }
        int listener[NT];
        for (auto& l : listener) l = -1;
        int serial = 0;
        bool enabled = false;
        auto deliver = [&] { Q q; for (auto& e : queue) if (listener[e.t] >= 0) want.push_back({ e.t, listener[e.t], e.bytes }); queue.clear(); };
        for (int i = 0; i < n; i++) {
            int op = vt::choose(6, "operation");
            switch (op) {
            case 0: rig.c->enable_receive(); enabled = true; pass(4000000000); deliver(); break;
            case 1: rig.c->disable_receive(); enabled = false; break;
            case 2: case 3: {
                int t = op == 2 ? 0 : 1;
                Q q;
                auto d = dctx(t, 1 + i % 3);
                net::dgram(rig.rx, "10.0.0.7:9", d);
                queue.push_back({ t, 0, d });
                if (enabled) { pass(4000000000); deliver(); }
                break;
            }
            case 4: attach(*rig.c, 0, ++serial); listener[0] = serial; break;
            case 5: if (listener[1] < 0) { attach(*rig.c, 1, ++serial); listener[1] = serial; } else { g::listen(*rig.c, 1, nullptr); listener[1] = -1; } break;
            }
            Q q;
            static const char* const N[] = { "enable", "disable", "Sig", "CtxOne", "register-Sig", "toggle-CtxOne" };
            seq += std::string(N[op]) + " ";
        }
        pass(20000000000);
        same(want, seq);
    }
    std::size_t done;
    { Q q; done = got.size(); }
    pass(20000000000);
    Q q;
    if (got.size() != done) vt::fail("after-destruction", "a listener is called after the destruction");
    end();
}

// datagrams arrive while a listener is registered or replaced
void registering(bool replace)
{
    begin();
    {
        Rig rig;
        { Q q; got.clear(); }
        if (replace) attach(*rig.c, 1, 0);
        std::vector<std::string> d;
        { Q q; d = { dctx(1, 1), dctx(1, 2) }; }
        int rx = rig.rx;
        vt::daemon([=] { for (auto& x : d) { vt::point("network"); net::dgram(rx, "10.0.0.7:9", x); } }, "network");
        rig.c->enable_receive();
        attach(*rig.c, 1, 1);
        pass(20000000000);
        rig.c->disable_receive();
        Q q;
        std::size_t i = 0;
        // the old listener first, then only the new one; without an old one the first datagrams may reach nobody
        bool bad = replace && got.size() != 2;
        std::size_t skip = d.size() - got.size();
        if (got.size() > d.size()) bad = true;
        for (; !bad && i < got.size(); i++) bad = got[i].bytes != d[i + skip] || got[i].t != 1 || (i > 0 && got[i].who < got[i - 1].who) || (!replace && got[i].who != 1);
        if (bad) vt::fail("registering", "the datagrams reach [" + say(got) + "]");
    }
    end();
}

// destroyed while receiving
void destroyed(bool disable)
{
    begin();
    std::vector<Got> want;
    {
        Rig rig;
        { Q q; got.clear(); want = { { 1, 0, dctx(1, 1) }, { 1, 0, dctx(1, 2) } }; for (auto& w : want) net::dgram(rig.rx, "10.0.0.7:9", w.bytes); }
        attach(*rig.c, 1, 0);
        rig.c->enable_receive();
        if (disable) rig.c->disable_receive();
    }
    std::size_t done;
    { Q q; done = got.size(); }
    same(want, "two context packets", true);
    pass(20000000000);
    Q q;
    if (got.size() != done) vt::fail("after-destruction", "a listener is called after the destruction");
    end();
}

// disabled and enabled again at any moment: nothing is lost or delivered twice
void toggling(int n)
{
    begin();
    {
        Rig rig;
        std::vector<Got> want;
        { Q q; got.clear(); want = { { 1, 0, dctx(1, 1) }, { 1, 0, dctx(1, 2) } }; }
        attach(*rig.c, 1, 0);
        int rx = rig.rx;
        vt::daemon([=] { for (auto& w : want) { vt::point("network"); net::dgram(rx, "10.0.0.7:9", w.bytes); } }, "network");
        rig.c->enable_receive();
        for (int i = 0; i < n; i++) {
            rig.c->disable_receive();
            rig.c->enable_receive();
            if (vt::choose(2, "again")) rig.c->enable_receive();
        }
        pass(20000000000);
        same(want, "two context packets");
    }
    end();
}

void both_enable()
{
    begin();
    {
        Rig rig;
        std::vector<Got> want;
        { Q q; got.clear(); want = { { 1, 0, dctx(1, 1) } }; net::dgram(rig.rx, "10.0.0.7:9", want[0].bytes); }
        attach(*rig.c, 1, 0);
        auto* c = rig.c.get();
        std::thread t([c] { c->enable_receive(); });
        c->enable_receive();
        t.join();
        pass(20000000000);
        rig.c->disable_receive();
        same(want, "a context packet");
    }
    end();
}

// commands and data at the same time
void mixed()
{
    begin();
    {
        Rig rig;
        std::vector<Got> want;
        Req r;
        int fd = rig.cmd;
        {
            Q q;
            got.clear();
            want = { { 1, 0, dctx(1, 1) }, { 2, 0, dctx(2, 3) } };
            r = requests(0).back();
            on_command = [=](const std::string&, const std::string&, const std::string& reply) {
                auto v = replies(0, r, 1);
                vt::daemon([=] { for (auto& d : v) { vt::point("network"); if (TRANSPORT == 'n') fake::arrive(reply, d); else if (TRANSPORT == 'u') net::dgram(fd, PEER, d); else net::bytes(fd, d); } }, "network");
            };
        }
        for (int t = 0; t < NT; t++) attach(*rig.c, t, 0);
        int rx = rig.rx;
        vt::daemon([=] { for (auto& w : want) { vt::point("network"); net::dgram(rx, "10.0.0.7:9", w.bytes); } }, "data");
        rig.c->enable_receive();
        Acks out;
        g::send(*rig.c, 0, r, 1, out);
        pass(20000000000);
        same(want, "two context packets");
        Q q;
        auto v = replies(0, r, 1);
        if ((r.v && out.v != v[0]) || (r.s && out.s != v.back())) vt::fail("mixed", "the acknowledges are not those of the command");
    }
    end();
}

void transmitting()
{
    begin();
    {
        Rig rig;
        for (int i = 0; i < 2; i++) {
            int t = vt::choose(NT, "type"), k = vt::choose(4, "contents");
            if (k == 3 && t == 0) k = 16000;
            { Q q; sent.clear(); }
            g::transmit(*rig.c, t, k);
            Q q;
            if (sent.size() != 1 || sent[0].to != "10.0.0.7:4002" || sent[0].data != dctx(t, k)) vt::fail("transmit", std::string("a ") + TYPE[t] + " packet is not sent as it is, once, to the data and context destination");
        }
    }
    end();
}
#endif

void constructing()
{
    begin();
    int k = vt::choose(4, "failure");
    {
        Q q;
        if (TRANSPORT == 'n') { fake::state.fail_connect = k == 1; fake::state.fail_subscribe = k == 2 ? 0 : -1; }
        else net::st.fault = [k](const char* c, int) { return (k == 1 && c[0] == 'b') || (k == 2 && c[0] == 's' && c[1] == 'o' && c[2] == 'c') || (k == 3 && TRANSPORT == 't' && c[0] == 'c' && c[1] == 'o') ? EADDRINUSE : 0; };
    }
    bool threw = false;
    try { Rig rig; }
    catch (const std::exception&) { threw = true; }
    if (threw != (k == 1 || k == 2 || (k == 3 && TRANSPORT == 't'))) vt::fail("construction", threw ? "the controller cannot be set up" : "the controller does not report that its transport fails");
    end();
}

}  // namespace

void g::handled(char, int, uint32_t, std::string) {}
void g::idle() {}

int main(int argc, char** argv)
{
    thorough = argc > 1 && std::string(argv[1]) == "thorough";
    std::string only = argc > 2 ? argv[2] : "";
    std::vector<std::pair<std::string, std::function<void(const std::string&)>>> all;
    auto add = [&](const std::string& n, std::function<void()> f, int p = 0) {
        all.push_back({ n, [=](const std::string& x) {
            vt::Bounds b;
            b.preempt = p + (thorough && p ? 1 : 0);
            b.early = 0;
            b.spurious = 0;
            b.seconds = thorough ? 500 : 50;
            vt::deepen(x, f, b);
        } });
    };
    std::cout.setstate(std::ios::failbit);
    net::on = true;
    add("commands_2", [] { commands(2); });
    if (thorough) add("commands_3", [] { commands(3); });
#if DEV_HAS_DCTX
    add("datagrams_2", [] { datagrams(2, false); });
    add("datagrams_2_queued", [] { datagrams(2, true); });
    if (thorough) add("datagrams_3_queued", [] { datagrams(3, true); });
    add("control", [] { control(thorough ? 6 : 4); });
    add("registering", [] { registering(false); }, 2);
    add("replacing", [] { registering(true); }, 2);
    add("destroyed", [] { destroyed(false); }, 2);
    add("disabled", [] { destroyed(true); }, 2);
    add("toggling", [] { toggling(1); }, 2);
    add("both_enable", [] { both_enable(); }, 2);
    add("mixed", [] { mixed(); }, 1);
    add("transmitting", [] { transmitting(); });
#endif
    add("constructing", [] { constructing(); });
    if (only == "list") {
        for (auto& [n, f] : all) printf("%s\n", n.c_str());
        return 0;
    }
    for (auto& [n, f] : all) if (only.empty() || n == only) f(n);
}
