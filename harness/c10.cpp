// C10: the NATS client under every schedule of receivers, deliveries and shutdown.
#include <span>
#include <memory>
#include <stdexcept>
#include <thread>
#include <type_traits>
#include <vector>
#include <string>
#include <cstring>
#include <cstdlib>

#include <vrtgen/nats/client.hpp>

#include "nats_fake.hpp"
#include "sched.hpp"

using namespace std::chrono_literals;
using vrtgen::nats::client;
using Q = vt::Quiet;

namespace {

bool thorough = false;

std::string text(std::span<const uint8_t> d) { return std::string(d.begin(), d.end()); }

enum Kind { ASYNC, SYNC, GROUP, GROUPSYNC, INBOX };
const char* names[] = { "async", "sync", "group", "group_sync", "inbox" };

// a client with one queue of interest
struct Rig {
    Kind kind;
    client* c;
    std::string subj;

    explicit Rig(Kind k, bool ctor = true) : kind(k)
    {
        if (ctor) c = new client("nats://here");
        else { c = new client(); must(c->connect("nats://here") == NATS_OK, "connect"); }
        listen();
    }
    static void must(bool b, const char* what) { if (!b) vt::fail("status", std::string(what) + " fails although the library call succeeds"); }
    void listen()
    {
        switch (kind) {
        case ASYNC: must(c->subscribe("s") == NATS_OK, "subscribe"); break;
        case SYNC: must(c->subscribe("s", true) == NATS_OK, "subscribe"); break;
        case GROUP: must(c->queue_subscribe("s", "g") == NATS_OK, "queue_subscribe"); break;
        case GROUPSYNC: must(c->queue_subscribe("s", "g", true) == NATS_OK, "queue_subscribe"); break;
        case INBOX: must(c->new_inbox() == NATS_OK, "new_inbox"); break;
        }
        auto s = kind == INBOX ? c->inbox() : c->subject();
        Q q;
        subj = s;
        if (subj != fake::subscribed(fake::subscriptions() - 1)) vt::fail("subject", "the client reports subject '" + subj + "', subscribed is '" + fake::subscribed(fake::subscriptions() - 1) + "'");
    }
    // text of the next message, "" without one
    std::string get(long ms = -1)
    {
        auto m = kind == INBOX ? (ms < 0 ? c->next_inbox_msg() : c->next_inbox_msg(std::chrono::milliseconds(ms)))
                               : (ms < 0 ? c->next_msg() : c->next_msg(std::chrono::milliseconds(ms)));
        if (!m) return "";
        auto d = m->data();
        Q q;
        return text(d);
    }
    void arrive(const std::string& s) { if (!fake::arrive(subj, s)) vt::fail("unsubscribed", "the client is not subscribed to " + subj); }
    void close() { delete c; }
};

std::string num(int i) { return std::string("m") + static_cast<char>('0' + i); }

struct Seen {
    std::vector<std::vector<std::string>> by;
    void put(std::size_t i, const std::string& s) { Q q; if (by.size() <= i) by.resize(i + 1); by[i].push_back(s); }
    // every message 0..n-1 exactly once; each receiver in arrival order
    void check(int n)
    {
        Q q;
        std::vector<int> count(static_cast<std::size_t>(n));
        for (std::size_t r = 0; r < by.size(); r++) {
            int last = -1;
            for (auto& s : by[r]) {
                if (s.size() != 2 || s[0] != 'm' || s[1] < '0' || s[1] >= '0' + n) vt::fail("wrong", "receiver " + std::to_string(r) + " returns '" + s + "'");
                int i = s[1] - '0';
                if (++count[static_cast<std::size_t>(i)] > 1) vt::fail("duplicated", "message " + s + " is handed out twice");
                if (i < last) vt::fail("reordered", "message " + s + " is handed out after a later one");
                last = i;
            }
        }
        for (int i = 0; i < n; i++) if (!count[static_cast<std::size_t>(i)]) vt::fail("lost", "message " + num(i) + " is never handed out");
    }
};

void begin() { Q q; fake::reset(); }
void end() { fake::finish(); }

// n messages, r receivers that wait without timeout
void drain(Kind k, int r, int n, bool from_daemon)
{
    begin();
    Rig rig(k);
    Seen seen;
    if (from_daemon) vt::daemon([&] { for (int i = 0; i < n; i++) rig.arrive(num(i)); }, "server");
    std::vector<std::thread> t;
    for (int i = 0; i < r; i++) {
        int share = n / r + (i < n % r ? 1 : 0);
        t.emplace_back([&, i, share] { for (int j = 0; j < share; j++) seen.put(static_cast<std::size_t>(i), rig.get()); });
    }
    if (!from_daemon) for (int i = 0; i < n; i++) rig.arrive(num(i));
    for (auto& x : t) x.join();
    seen.check(n);
    rig.close();
    end();
}

// both queues of one client in use at the same time
void both(bool sync)
{
    begin();
    Rig rig(sync ? SYNC : ASYNC);
    Rig::must(rig.c->new_inbox() == NATS_OK, "new_inbox");
    auto in = rig.c->inbox();
    Seen a, b;
    vt::daemon([&] { fake::arrive(in, "m0"); rig.arrive("m0"); }, "server");
    std::thread t1([&] { a.put(0, rig.get()); });
    auto m = rig.c->next_inbox_msg();
    b.put(0, m ? text(m->data()) : "");
    m.reset();
    t1.join();
    a.check(1);
    b.check(1);
    // nothing is left, and neither queue sees the messages of the other
    if (rig.c->next_msg(0ms) || rig.c->next_inbox_msg(0ms)) vt::fail("duplicated", "a message is handed out again");
    rig.close();
    end();
}

// several messages wait before the receiver asks
void backlog(Kind k, int n)
{
    begin();
    Rig rig(k, false);
    for (int i = 0; i < n; i++) rig.arrive(num(i));
    Seen seen;
    for (int i = 0; i < n; i++) seen.put(0, rig.get());
    seen.check(n);
    auto s = rig.get(5);
    if (!s.empty()) vt::fail("duplicated", "message " + s + " is handed out again");
    rig.close();
    end();
}

// destruction while receivers wait; messages may still arrive
void shutdown(Kind k, int r, long ms, int n)
{
    begin();
    auto* rig = new Rig(k);
    Seen seen;
    int left = 0;
    std::vector<std::thread> t;
    for (int i = 0; i < r; i++) t.emplace_back([&, i] {
        auto s = rig->get(ms);
        if (!s.empty()) seen.put(static_cast<std::size_t>(i), s);
        Q q;
        left++;
    });
    vt::block("all receivers waiting", [&] { return vt::waiting() + left == r; });
    for (int i = 0; i < n; i++) rig->arrive(num(i));
    rig->close();
    for (auto& x : t) x.join();
    {
        Q q;
        std::string all;
        for (auto& v : seen.by) for (auto& s : v) { if (all.find(s) != std::string::npos) vt::fail("duplicated", "message " + s + " is handed out twice"); all += s; }
    }
    { Q q; delete rig; }
    end();
}

// a timed wait: returns the message at once when it comes, nothing only when the time is over
void timed(Kind k, bool early)
{
    begin();
    Rig rig(k);
    auto t0 = vt::now();
    vt::daemon([&] { rig.arrive("m0"); }, "server");
    auto s = rig.get(100);
    auto dt = vt::now() - t0;
    if (s.empty() && dt < 100000000) vt::fail("early", "a wait of 100 ms returns empty-handed after " + std::to_string(dt / 1000000) + " ms");
    if (s.empty() && !early) vt::fail("not-woken", "a wait of 100 ms returns empty-handed although a message arrived");
    if (!s.empty() && !early && dt > 0) vt::fail("not-woken", "a message that arrived at once is returned after " + std::to_string(dt / 1000000) + " ms");
    if (s.empty()) s = rig.get();
    if (s != "m0") vt::fail("wrong", "the message is '" + s + "'");
    rig.close();
    end();
}

// a timed wait without messages lasts its time, and zero means not to wait
void empty(Kind k)
{
    begin();
    Rig rig(k);
    auto t0 = vt::now();
    auto s = rig.get(100);
    auto dt = vt::now() - t0;
    if (!s.empty()) vt::fail("wrong", "a message nobody sent");
    if (dt < 100000000) vt::fail("early", "a wait of 100 ms returns after " + std::to_string(dt / 1000000) + " ms");
    rig.get(0);
    rig.arrive("m0");
    s = rig.get();
    if (s != "m0") vt::fail("wrong", "the message is '" + s + "'");
    rig.close();
    end();
}

// one queue's shutdown wakes the waiters of the other
void shutdown_both(long ms)
{
    begin();
    auto* rig = new Rig(ASYNC);
    Rig::must(rig->c->new_inbox() == NATS_OK, "new_inbox");
    auto* c = rig->c;
    int left = 0;
    std::thread a([&, c, ms] { ms < 0 ? c->next_msg() : c->next_msg(std::chrono::milliseconds(ms)); Q q; left++; });
    std::thread b([&, c, ms] { ms < 0 ? c->next_inbox_msg() : c->next_inbox_msg(std::chrono::milliseconds(ms)); Q q; left++; });
    vt::block("all receivers waiting", [&] { return vt::waiting() + left == 2; });
    rig->close();
    a.join();
    b.join();
    { Q q; delete rig; }
    end();
}

void inbox_again(bool fails)
{
    begin();
    Rig rig(INBOX);
    auto old = rig.subj;
    if (fails) {
        fake::state.fail_subscribe = 1;
        if (rig.c->new_inbox() == NATS_OK) vt::fail("status", "new_inbox succeeds although the library call fails");
        auto s = rig.c->inbox();
        (void)s;
    } else {
        rig.listen();
        if (rig.subj == old) vt::fail("inbox", "a new inbox has the subject of the old one");
        rig.arrive("m0");
        auto s = rig.get();
        if (s != "m0") vt::fail("wrong", "the message is '" + s + "'");
    }
    rig.close();
    end();
}

void again(Kind k)
{
    begin();
    Rig rig(k);
    auto st = k == ASYNC ? rig.c->subscribe("t") : k == SYNC ? rig.c->subscribe("t", true)
            : k == GROUP ? rig.c->queue_subscribe("t", "g") : rig.c->queue_subscribe("t", "g", true);
    Rig::must(st == NATS_OK, "subscribe");
    rig.subj = rig.c->subject();
    if (rig.subj != "t") vt::fail("subject", "after subscribing again the subject is '" + rig.subj + "'");
    rig.arrive("m0");
    auto s = rig.get();
    if (s != "m0") vt::fail("wrong", "the message is '" + s + "'");
    rig.close();
    end();
}

void again_fails(Kind k)
{
    begin();
    Rig rig(k);
    fake::state.fail_subscribe = 1;
    auto st = k == SYNC ? rig.c->subscribe("t", true) : rig.c->subscribe("t");
    if (st == NATS_OK) vt::fail("status", "subscribe succeeds although the library call fails");
    rig.c->subject();
    rig.close();
    end();
}

void connect_again(bool fails)
{
    begin();
    Rig rig(ASYNC);
    fake::state.fail_connect = fails;
    auto st = rig.c->connect("nats://there");
    if ((st == NATS_OK) == fails) vt::fail("status", "connect does not return the status of the library call");
    fake::state.fail_connect = false;
    if (!fails && rig.c->url() != "nats://there") vt::fail("url", "the URL after connecting again is '" + rig.c->url() + "'");
    rig.close();
    end();
}

// a failed synchronous subscription leaves the inbox in working order
void inbox_after_failure()
{
    begin();
    Rig rig(INBOX);
    fake::state.fail_subscribe = 1;
    rig.c->subscribe("s", true);
    auto t0 = vt::now();
    vt::daemon([subj = rig.subj] { fake::arrive(subj, "m0"); }, "server");
    auto s = rig.get(100);
    if (s.empty() && vt::now() - t0 < 100000000) vt::fail("early", "a wait of 100 ms for an inbox message returns empty-handed after " + std::to_string((vt::now() - t0) / 1000000) + " ms");
    rig.close();
    end();
}

void unconnected()
{
    begin();
    fake::state.fail_connect = true;
    {
        client c("nats://nowhere");
        if (c.is_connected()) vt::fail("status", "a client without a connection reports to be connected");
        if (c.subscribe("s") == NATS_OK) vt::fail("status", "subscribe succeeds without a connection");
        if (c.new_inbox() == NATS_OK) vt::fail("status", "new_inbox succeeds without a connection");
        if (!c.subject().empty() || !c.inbox().empty() || !c.url().empty()) vt::fail("subject", "an unconnected client reports a subject, inbox or URL");
        uint8_t b[1] = { 1 };
        if (c.publish("x", std::span<const uint8_t>{ b, 1 }) == NATS_OK) vt::fail("status", "publish succeeds without a connection");
        if (c.next_msg(1ms) || c.next_inbox_msg(1ms)) vt::fail("wrong", "a message nobody sent");
    }
    end();
}

void publishing()
{
    begin();
    {
        client c("nats://here");
        if (!c.is_connected()) vt::fail("status", "a connected client reports not to be");
        if (c.url() != "nats://here") vt::fail("url", "the URL is '" + c.url() + "'");
        if (c.subscribe("") == NATS_OK || c.queue_subscribe("", "g") == NATS_OK || c.queue_subscribe("s", "") == NATS_OK) vt::fail("status", "an empty subject or group is accepted");
        uint8_t b[4] = { 1, 0, 255, 7 };
        for (std::size_t n = 0; n <= 4; n++) {
            Rig::must(c.publish("x.y", std::span<const uint8_t>{ b, n }) == NATS_OK, "publish");
            Rig::must(c.publish("x.y", std::span<const uint8_t>{ b, n }, "r") == NATS_OK, "publish");
            Q q;
            auto& v = fake::state.sent;
            if (v.size() != 2 * n + 2) vt::fail("publish", "a message is not published exactly once");
            std::string want(reinterpret_cast<char*>(b), n);
            auto& p = v[2 * n];
            auto& r = v[2 * n + 1];
            if (p.subject != "x.y" || p.data != want || !p.reply.empty() || r.subject != "x.y" || r.data != want || r.reply != "r") vt::fail("publish", "subject, data or reply subject of a message change");
        }
        fake::state.fail_publish = true;
        if (c.publish("x", std::span<const uint8_t>{ b, 1 }) == NATS_OK) vt::fail("status", "publish succeeds although the library call fails");
        if (c.publish("x", std::span<const uint8_t>{ b, 1 }, "r") == NATS_OK) vt::fail("status", "publish succeeds although the library call fails");
    }
    end();
}

// the reply subject and the data are those of the message, also while others are received
void replies()
{
    begin();
    Rig rig(ASYNC);
    fake::arrive("s", "m0", "r0");
    fake::arrive("s", "m1");
    auto a = rig.c->next_msg();
    auto b = rig.c->next_msg();
    if (!a || !b) vt::fail("lost", "a message is not returned");
    if (a->reply_subject() != "r0" || !b->reply_subject().empty()) vt::fail("reply", "the reply subject is wrong");
    if (text(a->data()) != "m0" || text(b->data()) != "m1") vt::fail("wrong", "the data is wrong");
    rig.close();
    if (a->reply_subject() != "r0" || text(b->data()) != "m1") vt::fail("wrong", "a message changes when the client is destroyed");
    a.reset();
    b.reset();
    end();
}

// the data of a message is what was sent, whatever its size and bytes
void contents()
{
    begin();
    Rig rig(ASYNC);
    static const std::string sizes[] = { std::string("x"), std::string(1, '\0'), std::string("a\0b", 3), std::string("\0\xff\0", 3), std::string(1500, 'y'), std::string(65536, 'w'), std::string(262140, 'z') };
    auto& d = sizes[vt::choose(7, "data")];
    fake::arrive("s", d);
    auto a = rig.c->next_msg();
    if (!a) vt::fail("lost", "a message of " + std::to_string(d.size()) + " bytes is not returned");
    if (text(a->data()) != d) vt::fail("wrong", "the data of a message of " + std::to_string(d.size()) + " bytes is wrong");
    rig.close();
    a.reset();
    end();
}

template <class M>
void copies_of()
{
    begin();
    {
        uint8_t d[2] = { 'a', 'b' };
        M m("s", std::span<const char>{ reinterpret_cast<const char*>(d), 2 });
        if (text(m.data()) != "ab") vt::fail("wrong", "the data of a created message is wrong");
        if constexpr (std::is_copy_constructible_v<M>) { M n(m); n.data(); }
        if constexpr (std::is_move_constructible_v<M>) { M n(std::move(m)); if (text(n.data()) != "ab") vt::fail("wrong", "the data of a moved message is wrong"); }
        M o("s", std::span<const char>{ reinterpret_cast<const char*>(d), 1 });
        if constexpr (std::is_copy_assignable_v<M>) { M p("s", std::span<const char>{ reinterpret_cast<const char*>(d), 1 }); p = o; }
        if constexpr (std::is_move_assignable_v<M>) { M p("s", std::span<const char>{ reinterpret_cast<const char*>(d), 1 }); p = std::move(o); }
    }
    end();
}

void run(const std::string& name, const std::function<void()>& f, int preempt, int early = 0, int spurious = 0, double seconds = 0)
{
    vt::Bounds b;
    b.preempt = preempt;
    b.early = early;
    b.spurious = spurious;
    b.seconds = seconds > 0 ? seconds : thorough ? 90 : 20;
    vt::deepen(name, f, b);
}

}  // namespace

int main(int argc, char** argv)
{
    thorough = argc > 1 && std::string(argv[1]) == "thorough";
    std::string only = argc > 2 ? argv[2] : "";
    int d = thorough ? 1 : 0;
    std::vector<std::pair<std::string, std::function<void(const std::string&)>>> all;
    auto add = [&](const std::string& n, std::function<void()> f, int p, int e = 0, int s = 0) { all.push_back({ n, [=](const std::string& x) { run(x, f, p, e, s); } }); };
    for (int ki = 0; ki < 5; ki++) {
        auto k = static_cast<Kind>(ki);
        std::string n = std::string(names[ki]) + "_";
        int e = k == SYNC || k == GROUPSYNC ? 1 : 0;
        add(n + "drain_1x2", [k] { drain(k, 1, 2, true); }, 2 + d, e, 1);
        add(n + "drain_1x3", [k] { drain(k, 1, 3, false); }, 1 + d, e, 0);
        add(n + "drain_2x2", [k] { drain(k, 2, 2, true); }, 2 + d, 0, 1);
        add(n + "drain_2x3", [k] { drain(k, 2, 3, false); }, 1 + d, 0, 0);
        add(n + "backlog", [k] { backlog(k, 3); }, 1 + d, e, 1);
        add(n + "shutdown_1", [k] { shutdown(k, 1, -1, 0); }, 3 + d, e, 1);
        add(n + "shutdown_1m", [k] { shutdown(k, 1, -1, 1); }, 2 + d, e, 0);
        add(n + "shutdown_2", [k] { shutdown(k, 2, -1, 0); }, 2 + d, 0, 1);
        add(n + "shutdown_2m", [k] { shutdown(k, 2, -1, 1); }, 1 + d, 0, 0);
        add(n + "shutdown_timed", [k] { shutdown(k, 1, 10000, 1); }, 2 + d, 1, 0);
        add(n + "shutdown_timed_2", [k] { shutdown(k, 2, 10000, 0); }, 1 + d, 1, 0);
        add(n + "timed", [k] { timed(k, false); }, 2 + d, 0, 1);
        add(n + "timed_early", [k] { timed(k, true); }, 2 + d, 1, 1);
        add(n + "empty", [k] { empty(k); }, 1 + d, 1, 1);
        if (k != INBOX) add(n + "again", [k] { again(k); }, 1 + d, e, 0);
        if (k == ASYNC || k == SYNC) add(n + "again_fails", [k] { again_fails(k); }, 1 + d, e, 0);
    }
    add("both", [] { both(false); }, 2 + d, 0, 0);
    add("both_sync", [] { both(true); }, 1 + d, 1, 0);
    add("shutdown_both", [] { shutdown_both(-1); }, 2 + d, 0, 1);
    add("shutdown_both_timed", [] { shutdown_both(5000); }, 2 + d, 1, 0);
    add("inbox_again", [] { inbox_again(false); }, 2, 0, 0);
    add("inbox_again_fails", [] { inbox_again(true); }, 2, 0, 0);
    add("connect_again", [] { connect_again(false); }, 2, 0, 0);
    add("connect_again_fails", [] { connect_again(true); }, 2, 0, 0);
    add("inbox_after_failure", [] { inbox_after_failure(); }, 2, 1, 0);
    add("unconnected", [] { unconnected(); }, 1, 0, 0);
    add("publishing", [] { publishing(); }, 1, 0, 0);
    add("replies", [] { replies(); }, 2, 0, 0);
    add("contents", [] { contents(); }, 2, 0, 0);
    add("message_copies", [] { copies_of<vrtgen::nats::message>(); }, 1, 0, 0);
    if (only == "list") {
        for (auto& [n, f] : all) printf("%s\n", n.c_str());
        return 0;
    }
    for (auto& [n, f] : all) if (only.empty() || n == only) f(n);
}
