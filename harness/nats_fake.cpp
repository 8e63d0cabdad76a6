#include "nats_fake.hpp"

#include <nats/nats.h>
#include <string.h>

#include <deque>
#include <memory>

#include "sched.hpp"

struct __natsMsg { std::string subject, reply, data; bool handed = false, destroyed = false; };
struct __natsConnection { std::string url; bool destroyed = false, closed = false; };
struct __natsSubscription {
    __natsConnection* nc;
    std::string subject, queue;
    natsMsgHandler cb = nullptr;
    void* closure = nullptr;
    natsOnCompleteCB complete = nullptr;
    void* complete_closure = nullptr;
    std::deque<__natsMsg*> pending;
    bool closed = false, destroyed = false, running = false, ended = false, draining = false;
    char sync = 0;
};

namespace {
std::vector<std::unique_ptr<__natsMsg>> msgs;
std::vector<std::unique_ptr<__natsConnection>> conns;
std::vector<std::unique_ptr<__natsSubscription>> subs;
int attempts = 0;

void live(const natsMsg* m, const char* f) { if (m && m->destroyed) vt::fail("message-use", std::string(f) + " on a message that was destroyed"); }
void live(const natsSubscription* s, const char* f) { if (s && s->destroyed) vt::fail("subscription-use", std::string(f) + " on a subscription that was destroyed"); }
void live(const natsConnection* s, const char* f) { if (s && s->destroyed) vt::fail("connection-use", std::string(f) + " on a connection that was destroyed"); }

void deliver(__natsSubscription* s)
{
    for (;;) {
        vt::block("delivery", [s] { return !s->pending.empty() || s->closed; });
        if (s->closed && !(s->draining && !s->pending.empty())) break;
        vt::acquire(&s->sync);
        auto* m = s->pending.front();
        s->pending.pop_front();
        m->handed = true;
        s->running = true;
        vt::point("callback");
        s->cb(s->nc, s, m, s->closure);
        s->running = false;
        vt::release(&s->sync);
    }
    s->ended = true;
    vt::acquire(&s->sync);
    vt::point("completion");
    if (s->complete) s->complete(s->complete_closure);
}

natsStatus make(natsSubscription** sub, natsConnection* nc, const char* subject, const char* queue, natsMsgHandler cb, void* closure)
{
    vt::Quiet q;
    vt::point("subscribe");
    if (!nc) return NATS_INVALID_ARG;
    live(nc, "subscribe");
    if (attempts++ == fake::state.fail_subscribe) return NATS_ERR;
    subs.push_back(std::make_unique<__natsSubscription>());
    auto* s = subs.back().get();
    s->nc = nc;
    s->subject = subject;
    if (queue) s->queue = queue;
    s->cb = cb;
    s->closure = closure;
    *sub = s;
    vt::release(&s->sync);
    if (cb) vt::daemon([s] { deliver(s); }, "delivery");
    return NATS_OK;
}

void close(__natsSubscription* s)
{
    s->closed = true;
    vt::release(&s->sync);
}
}  // namespace

namespace fake {
State state;

void reset()
{
    state = State{};
    msgs.clear();
    conns.clear();
    subs.clear();
    attempts = 0;
}

bool arrive(const std::string& subject, const std::string& data, const std::string& reply)
{
    vt::Quiet q;
    vt::point("arrival");
    bool any = false;
    for (auto& s : subs) {
        if (s->closed || s->subject != subject) continue;
        msgs.push_back(std::make_unique<__natsMsg>());
        auto* m = msgs.back().get();
        m->subject = subject;
        m->reply = reply;
        m->data = data;
        s->pending.push_back(m);
        vt::release(&s->sync);
        any = true;
    }
    return any;
}

std::string subscribed(int i) { return i < static_cast<int>(subs.size()) ? subs[static_cast<std::size_t>(i)]->subject : ""; }
int subscriptions() { return static_cast<int>(subs.size()); }
bool idle()
{
    for (auto& s : subs) if (!s->closed && (!s->pending.empty() || s->running)) return false;
    return true;
}

void finish()
{
    vt::Quiet q;
    // callbacks under way run to their end, whatever has become of their client
    vt::block("callbacks under way", [] {
        for (auto& s : subs) if (s->cb && s->closed && !s->ended) return false;
        return true;
    });
    for (auto& m : msgs) if (m->handed && !m->destroyed) vt::fail("message-leak", "a delivered message is never destroyed: " + m->data);
    for (auto& s : subs) if (!s->destroyed) vt::fail("subscription-leak", "a subscription is never destroyed: " + s->subject);
    for (auto& s : conns) if (!s->destroyed) vt::fail("connection-leak", "a connection is never destroyed");
}
}  // namespace fake

extern "C" {
natsStatus natsConnection_ConnectTo(natsConnection** nc, const char* urls)
{
    vt::Quiet q;
    if (fake::state.fail_connect) return NATS_NO_SERVER;
    conns.push_back(std::make_unique<__natsConnection>());
    conns.back()->url = urls ? urls : "nats://localhost:4222";
    *nc = conns.back().get();
    return NATS_OK;
}
natsConnStatus natsConnection_Status(natsConnection* nc)
{
    live(nc, "natsConnection_Status");
    return nc && !nc->closed ? NATS_CONN_STATUS_CONNECTED : NATS_CONN_STATUS_CLOSED;
}
bool natsConnection_IsClosed(natsConnection* nc) { live(nc, "natsConnection_IsClosed"); return !nc || nc->closed; }
natsStatus natsConnection_GetConnectedUrl(natsConnection* nc, char* b, size_t n)
{
    live(nc, "natsConnection_GetConnectedUrl");
    if (!nc) return NATS_INVALID_ARG;
    if (nc->url.size() + 1 > n) return NATS_INSUFFICIENT_BUFFER;
    memcpy(b, nc->url.c_str(), nc->url.size() + 1);
    return NATS_OK;
}
natsStatus natsConnection_Publish(natsConnection* nc, const char* s, const void* d, int n)
{
    return natsConnection_PublishRequest(nc, s, "", d, n);
}
natsStatus natsConnection_PublishRequest(natsConnection* nc, const char* s, const char* r, const void* d, int n)
{
    vt::Quiet q;
    vt::point("publish");
    live(nc, "publish");
    if (!nc) return NATS_INVALID_ARG;
    if (fake::state.fail_publish) return NATS_CONNECTION_CLOSED;
    fake::Sent x{ s ? s : "", r ? r : "", std::string(static_cast<const char*>(d), static_cast<size_t>(n)) };
    fake::state.sent.push_back(x);
    if (fake::state.on_publish) fake::state.on_publish(x);
    return NATS_OK;
}
natsStatus natsConnection_PublishString(natsConnection* nc, const char* s, const char* str) { return natsConnection_PublishRequest(nc, s, "", str, static_cast<int>(strlen(str))); }
natsStatus natsConnection_PublishMsg(natsConnection* nc, natsMsg* m) { live(m, "publish"); return natsConnection_PublishRequest(nc, m->subject.c_str(), m->reply.c_str(), m->data.data(), static_cast<int>(m->data.size())); }
natsStatus natsConnection_Flush(natsConnection* nc) { live(nc, "flush"); return nc ? NATS_OK : NATS_INVALID_ARG; }
natsStatus natsConnection_FlushTimeout(natsConnection* nc, int64_t) { live(nc, "flush"); return nc ? NATS_OK : NATS_INVALID_ARG; }
natsStatus natsConnection_Subscribe(natsSubscription** s, natsConnection* nc, const char* subj, natsMsgHandler cb, void* c) { return make(s, nc, subj, nullptr, cb, c); }
natsStatus natsConnection_SubscribeSync(natsSubscription** s, natsConnection* nc, const char* subj) { return make(s, nc, subj, nullptr, nullptr, nullptr); }
natsStatus natsConnection_QueueSubscribe(natsSubscription** s, natsConnection* nc, const char* subj, const char* qg, natsMsgHandler cb, void* c) { return make(s, nc, subj, qg, cb, c); }
natsStatus natsConnection_QueueSubscribeSync(natsSubscription** s, natsConnection* nc, const char* subj, const char* qg) { return make(s, nc, subj, qg, nullptr, nullptr); }
void natsConnection_Close(natsConnection* nc)
{
    vt::Quiet q;
    vt::point("connection close");
    if (!nc) return;
    live(nc, "natsConnection_Close");
    nc->closed = true;
    for (auto& s : subs) if (s->nc == nc) close(s.get());
}
void natsConnection_Destroy(natsConnection* nc)
{
    vt::Quiet q;
    if (!nc) return;
    if (nc->destroyed) vt::fail("connection-double", "a connection is destroyed twice");
    natsConnection_Close(nc);
    nc->destroyed = true;
}
const char* natsSubscription_GetSubject(natsSubscription* s) { live(s, "natsSubscription_GetSubject"); return s ? s->subject.c_str() : nullptr; }
bool natsSubscription_IsValid(natsSubscription* s) { live(s, "natsSubscription_IsValid"); return s && !s->closed; }
natsStatus natsSubscription_Unsubscribe(natsSubscription* s)
{
    vt::Quiet q;
    vt::point("unsubscribe");
    if (!s) return NATS_INVALID_ARG;
    live(s, "natsSubscription_Unsubscribe");
    if (s->closed) return NATS_INVALID_SUBSCRIPTION;
    close(s);
    return NATS_OK;
}
natsStatus natsSubscription_Drain(natsSubscription* s)
{
    vt::Quiet q;
    vt::point("drain");
    if (!s) return NATS_INVALID_ARG;
    live(s, "natsSubscription_Drain");
    s->draining = true;
    close(s);
    return NATS_OK;
}
natsStatus natsSubscription_WaitForDrainCompletion(natsSubscription* s, int64_t)
{
    vt::Quiet q;
    if (!s) return NATS_INVALID_ARG;
    vt::block("drain completion", [s] { return s->ended || !s->cb; });
    return NATS_OK;
}
natsStatus natsSubscription_SetOnCompleteCB(natsSubscription* s, natsOnCompleteCB cb, void* c)
{
    vt::Quiet q;
    if (!s || s->closed) return NATS_INVALID_SUBSCRIPTION;
    live(s, "natsSubscription_SetOnCompleteCB");
    s->complete = cb;
    s->complete_closure = c;
    vt::release(&s->sync);
    return NATS_OK;
}
void natsSubscription_Destroy(natsSubscription* s)
{
    vt::Quiet q;
    vt::point("subscription destroy");
    if (!s) return;
    if (s->destroyed) vt::fail("subscription-double", "a subscription is destroyed twice");
    s->destroyed = true;
    close(s);
}
natsStatus natsSubscription_NextMsg(natsMsg** m, natsSubscription* s, int64_t timeout)
{
    vt::Quiet q;
    vt::point("NextMsg");
    if (!s) return NATS_INVALID_ARG;
    live(s, "natsSubscription_NextMsg");
    if (s->cb) return NATS_ILLEGAL_STATE;
    if (!vt::block("NextMsg", [s] { return !s->pending.empty() || s->closed; }, vt::now() + timeout * 1000000)) return NATS_TIMEOUT;
    if (s->closed) return NATS_INVALID_SUBSCRIPTION;
    vt::acquire(&s->sync);
    *m = s->pending.front();
    (*m)->handed = true;
    s->pending.pop_front();
    return NATS_OK;
}
natsStatus natsMsg_Create(natsMsg** m, const char* subj, const char* reply, const char* d, int n)
{
    vt::Quiet q;
    msgs.push_back(std::make_unique<__natsMsg>());
    *m = msgs.back().get();
    (*m)->subject = subj;
    if (reply) (*m)->reply = reply;
    (*m)->data.assign(d, static_cast<size_t>(n));
    (*m)->handed = true;
    return NATS_OK;
}
void natsMsg_Destroy(natsMsg* m)
{
    vt::Quiet q;
    if (!m) return;
    if (m->destroyed) vt::fail("message-double", "a message is destroyed twice: " + m->data);
    m->destroyed = true;
}
const char* natsMsg_GetSubject(const natsMsg* m) { live(m, "natsMsg_GetSubject"); return m ? m->subject.c_str() : nullptr; }
const char* natsMsg_GetReply(const natsMsg* m) { live(m, "natsMsg_GetReply"); return m && !m->reply.empty() ? m->reply.c_str() : nullptr; }
const char* natsMsg_GetData(const natsMsg* m) { live(m, "natsMsg_GetData"); return m ? m->data.data() : nullptr; }
int natsMsg_GetDataLength(const natsMsg* m) { live(m, "natsMsg_GetDataLength"); return m ? static_cast<int>(m->data.size()) : 0; }
const char* natsStatus_GetText(natsStatus) { return "status"; }
}
