#include "net_fake.hpp"

#include <arpa/inet.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <poll.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <unistd.h>

#include "sched.hpp"

extern "C" void __tsan_write_range(void* p, std::size_t n);
extern "C" void __tsan_read_range(void* p, std::size_t n);

namespace net {
State st;
int current = 0;
bool on = false;
std::function<void(const std::string&, const std::string&)> violation;

int first = 500;

void bad(const std::string& key, const std::string& desc)
{
    if (vt::tid() >= 0) vt::fail(key, desc);
    if (violation) violation(key, desc);
}

void reset() { st = State{}; }

int fresh(int owner)
{
    int n = first;
    while (st.fds.count(n)) n++;
    st.fds[n].owner = owner;
    return n;
}
int open_file(int owner) { return fresh(owner); }
void close_file(int fd) { st.fds.erase(fd); }
bool is_open(int fd) { return st.fds.count(fd) != 0; }
int count(int owner)
{
    int n = 0;
    for (auto& [f, d] : st.fds) if (d.owner == owner) n++;
    return n;
}
static char arrival;
void dgram(int fd, const std::string& from, const std::string& data) { vt::Quiet q; if (st.fds.count(fd)) st.fds[fd].dgrams.push_back({ from, data }); vt::release(&arrival); }
void bytes(int fd, const std::string& data) { vt::Quiet q; if (st.fds.count(fd)) st.fds[fd].in += data; vt::release(&arrival); }
void hangup(int fd, bool r) { vt::Quiet q; if (st.fds.count(fd)) { st.fds[fd].eof = true; st.fds[fd].reset = r; } vt::release(&arrival); }
void connection(int fd, const std::string& from) { vt::Quiet q; if (st.fds.count(fd)) st.fds[fd].incoming.push_back(from); }
std::vector<Call> calls(const std::string& name)
{
    std::vector<Call> v;
    for (auto& c : st.log) if (c.name == name) v.push_back(c);
    return v;
}

std::string text(const struct sockaddr* a, socklen_t n)
{
    char b[64] = "?";
    if (!a) return "";
    if (a->sa_family == AF_INET && n >= sizeof(sockaddr_in)) {
        auto* s = reinterpret_cast<const sockaddr_in*>(a);
        inet_ntop(AF_INET, &s->sin_addr, b, sizeof b);
        return std::string(b) + ":" + std::to_string(ntohs(s->sin_port));
    }
    if (a->sa_family == AF_INET6 && n >= sizeof(sockaddr_in6)) {
        auto* s = reinterpret_cast<const sockaddr_in6*>(a);
        inet_ntop(AF_INET6, &s->sin6_addr, b, sizeof b);
        return std::string(b) + ":" + std::to_string(ntohs(s->sin6_port));
    }
    return "invalid address";
}

void put(const std::string& t, struct sockaddr* a, socklen_t* n, int domain)
{
    if (!a || !n) return;
    auto c = t.rfind(':');
    auto ip = t.substr(0, c);
    auto port = static_cast<uint16_t>(c == std::string::npos ? 0 : atoi(t.c_str() + c + 1));
    sockaddr_storage ss;
    memset(&ss, 0, sizeof ss);
    socklen_t len;
    if (domain == AF_INET6) {
        auto* s = reinterpret_cast<sockaddr_in6*>(&ss);
        s->sin6_family = AF_INET6;
        s->sin6_port = htons(port);
        inet_pton(AF_INET6, ip.c_str(), &s->sin6_addr);
        len = sizeof *s;
    } else {
        auto* s = reinterpret_cast<sockaddr_in*>(&ss);
        s->sin_family = AF_INET;
        s->sin_port = htons(port);
        inet_pton(AF_INET, ip.c_str(), &s->sin_addr);
        len = sizeof *s;
    }
    memcpy(a, &ss, *n < len ? *n : len);
    *n = len;
}

// the descriptor of a call; nullptr with errno set if the call cannot succeed
Fd* get(const char* call, int fd)
{
    auto i = st.fds.find(fd);
    if (fd < 0) { errno = EBADF; return nullptr; }
    if (i == st.fds.end()) {
        bad("not-open", std::string(call) + " on descriptor " + std::to_string(fd) + " which is not open");
        errno = EBADF;
        return nullptr;
    }
    if (i->second.owner != current && current != 0) {
        bad("not-owned", std::string(call) + " on descriptor " + std::to_string(fd) + " which belongs to somebody else");
        errno = ENOTSOCK;
        return nullptr;
    }
    return &i->second;
}

int fault(const char* call, int fd)
{
    if (!st.fault) return 0;
    int e = st.fault(call, fd);
    if (e) errno = e;
    return e;
}

void log(const char* name, int fd, const std::string& addr, const std::string& data, long res)
{
    st.log.push_back({ name, fd, addr, data, res });
}

bool wait(const char* what, int fd, const std::function<bool(Fd&)>& ready, int64_t timeo, bool nowait)
{
    auto r = [fd, ready] { auto i = st.fds.find(fd); return i != st.fds.end() && ready(i->second); };
    if (r()) return true;
    if (nowait || vt::tid() < 0) { errno = EAGAIN; return false; }
    if (!vt::block(what, r, timeo >= 0 ? vt::now() + timeo : -1)) { errno = EAGAIN; return false; }
    return true;
}

ssize_t receive1(const char* call, int fd, void* buf, std::size_t n, int flags, struct sockaddr* a, socklen_t* al)
{
    vt::Quiet q;
    vt::point(call);
    Fd* f = get(call, fd);
    if (!f) return -1;
    if (int e = fault(call, fd)) { errno = e; log("recv", fd, "", "", -1); errno = e; return -1; }
    bool stream = f->type == SOCK_STREAM;
    if (stream && !f->connected && !f->accepted) { errno = ENOTCONN; log("recv", fd, "", "", -1); errno = ENOTCONN; return -1; }
    if (!wait(call, fd, [stream](Fd& d) { return d.shut || (stream ? !d.in.empty() || d.eof : !d.dgrams.empty()); }, f->rcvtimeo, flags & MSG_DONTWAIT)) {
        log("recv", fd, "", "", -1);
        errno = EAGAIN;
        return -1;
    }
    vt::acquire(&arrival);
    f = &st.fds[fd];
    if (!stream) {
        if (f->dgrams.empty()) return 0;
        auto [from, data] = f->dgrams.front();
        if (!(flags & MSG_PEEK)) f->dgrams.pop_front();
        std::size_t k = data.size() < n ? data.size() : n;
        memcpy(buf, data.data(), k);
        put(from, a, al, f->domain);
        log("recv", fd, from, data, static_cast<long>(k));
        return static_cast<ssize_t>(flags & MSG_TRUNC ? data.size() : k);
    }
    if (f->in.empty()) {
        if (f->reset) { f->reset = false; log("recv", fd, "", "", -1); errno = ECONNRESET; return -1; }
        log("recv", fd, "", "", 0);
        return 0;
    }
    std::size_t k = f->in.size() < n ? f->in.size() : n;
    if (k == 0) return 0;
    if (st.split) k = st.split(call, k);
    memcpy(buf, f->in.data(), k);
    std::string d = f->in.substr(0, k);
    if (!(flags & MSG_PEEK)) st.fds[fd].in.erase(0, k);
    log("recv", fd, "", d, static_cast<long>(k));
    return static_cast<ssize_t>(k);
}

ssize_t receive(const char* call, int fd, void* buf, std::size_t n, int flags, struct sockaddr* a, socklen_t* al)
{
    auto before = vt::now();
    auto r = receive1(call, fd, buf, n, flags, a, al);
    if (r > 0 || st.fail_takes == 0 || vt::tid() < 0 || vt::now() != before) return r;
    if (r == 0 && st.fds.count(fd) && st.fds[fd].type != SOCK_STREAM) return r;   // an empty datagram
    int e = errno;
    vt::block("time", [] { return false; }, before + st.fail_takes);
    errno = e;
    return r;
}

ssize_t transmit(const char* call, int fd, const void* buf, std::size_t n, int flags, const struct sockaddr* a, socklen_t al)
{
    vt::Quiet q;
    vt::point(call);
    Fd* f = get(call, fd);
    if (!f) return -1;
    std::string data(static_cast<const char*>(buf), n);
    std::string to = a ? text(a, al) : f->peer;
    if (int e = fault(call, fd)) { log("send", fd, to, data, -1); errno = e; return -1; }
    if (f->type == SOCK_STREAM) {
        if (!f->connected && !f->accepted) {
            if (!(flags & MSG_NOSIGNAL)) bad("sigpipe", "writing to a stream that is not connected kills the process (SIGPIPE)");
            errno = ENOTCONN;
            log("send", fd, to, data, -1);
            return -1;
        }
        if (f->reset || f->shut) {
            if (!(flags & MSG_NOSIGNAL)) bad("sigpipe", "writing to a closed connection kills the process (SIGPIPE)");
            log("send", fd, to, data, -1);
            errno = EPIPE;
            return -1;
        }
        std::size_t k = n;
        if (st.split && n) k = st.split(call, n);
        f->out += data.substr(0, k);
        log("send", fd, f->peer, data.substr(0, k), static_cast<long>(k));
        if (st.on_send) { auto p = f->peer; st.on_send(fd, p, data.substr(0, k)); }
        return static_cast<ssize_t>(k);
    }
    if (to.empty() || to == "invalid address") { errno = EDESTADDRREQ; log("send", fd, to, data, -1); return -1; }
    log("send", fd, to, data, static_cast<long>(n));
    if (st.on_send) st.on_send(fd, to, data);
    return static_cast<ssize_t>(n);
}

template <class F>
F real(const char* n) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, n)); }

bool mine(int fd) { return on && (fd >= first || current != 0); }

}  // namespace net

using namespace net;

extern "C" {

int socket(int domain, int type, int proto)
{
    if (!on) { static auto f = real<int (*)(int, int, int)>("socket"); return f(domain, type, proto); }
    vt::Quiet q;
    vt::point("socket");
    if (fault("socket", -1)) return -1;
    int fd = fresh(current);
    st.fds[fd].domain = domain;
    st.fds[fd].type = type & 0xf;
    log("socket", fd, "", "", fd);
    return fd;
}

int close(int fd)
{
    if (!mine(fd)) { static auto f = real<int (*)(int)>("close"); return f(fd); }
    vt::Quiet q;
    vt::point("close");
    if (!get("close", fd)) return -1;
    int e = st.fault ? st.fault("close", fd) : 0;
    st.fds.erase(fd);                    // the descriptor is gone whatever close returns
    log("close", fd, "", "", e ? -1 : 0);
    if (e) { errno = e; return -1; }
    return 0;
}

int bind(int fd, const struct sockaddr* a, socklen_t n) noexcept
{
    if (!mine(fd)) { static auto f = real<int (*)(int, const struct sockaddr*, socklen_t)>("bind"); return f(fd, a, n); }
    vt::Quiet q;
    Fd* f = get("bind", fd);
    if (!f) return -1;
    auto t = text(a, n);
    if (a->sa_family != f->domain || t == "invalid address") { errno = EINVAL; return -1; }
    if (fault("bind", fd)) { log("bind", fd, t, "", -1); return -1; }
    if (f->bound) { errno = EINVAL; return -1; }
    f->bound = true;
    f->local = t;
    log("bind", fd, t, "", 0);
    return 0;
}

int connect(int fd, const struct sockaddr* a, socklen_t n)
{
    if (!mine(fd)) { static auto f = real<int (*)(int, const struct sockaddr*, socklen_t)>("connect"); return f(fd, a, n); }
    vt::Quiet q;
    vt::point("connect");
    Fd* f = get("connect", fd);
    if (!f) return -1;
    auto t = text(a, n);
    if (a->sa_family != f->domain || t == "invalid address") { errno = EINVAL; return -1; }
    if (fault("connect", fd)) { log("connect", fd, t, "", -1); return -1; }
    if (f->type == SOCK_STREAM && (f->connected || f->listening)) { errno = EISCONN; return -1; }
    f->connected = true;
    f->peer = t;
    log("connect", fd, t, "", 0);
    return 0;
}

int listen(int fd, int) noexcept
{
    if (!mine(fd)) return -1;
    vt::Quiet q;
    Fd* f = get("listen", fd);
    if (!f) return -1;
    if (fault("listen", fd)) return -1;
    if (f->type != SOCK_STREAM) { errno = EOPNOTSUPP; return -1; }
    if (f->connected) { errno = EINVAL; return -1; }
    f->listening = true;
    return 0;
}

static int do_accept(int fd, struct sockaddr* a, socklen_t* n)
{
    vt::Quiet q;
    vt::point("accept");
    Fd* f = get("accept", fd);
    if (!f) return -1;
    if (fault("accept", fd)) return -1;
    if (!f->listening) { errno = EINVAL; return -1; }
    if (!wait("accept", fd, [](Fd& d) { return !d.incoming.empty() || d.shut; }, f->rcvtimeo, false)) return -1;
    f = &st.fds[fd];
    if (f->incoming.empty()) { errno = EINVAL; return -1; }
    auto from = f->incoming.front();
    f->incoming.pop_front();
    int domain = f->domain;
    int owner = f->owner;
    auto timeo = f->rcvtimeo;
    auto local = f->local;
    int r = fresh(owner);
    Fd& d = st.fds[r];
    d.domain = domain;
    d.type = SOCK_STREAM;
    d.accepted = d.connected = true;
    d.peer = from;
    d.local = local;
    d.rcvtimeo = timeo;
    put(from, a, n, domain);
    log("accept", r, from, "", r);
    return r;
}
int accept(int fd, struct sockaddr* a, socklen_t* n)
{
    if (!mine(fd)) return -1;
    return do_accept(fd, a, n);
}
int accept4(int fd, struct sockaddr* a, socklen_t* n, int)
{
    if (!mine(fd)) return -1;
    return do_accept(fd, a, n);
}

int shutdown(int fd, int how) noexcept
{
    if (!mine(fd)) { static auto f = real<int (*)(int, int)>("shutdown"); return f(fd, how); }
    vt::Quiet q;
    vt::point("shutdown");
    Fd* f = get("shutdown", fd);
    if (!f) return -1;
    if (fault("shutdown", fd)) return -1;
    f->shut = true;
    vt::release(&net::arrival);
    if (!f->connected && !f->listening) { errno = ENOTCONN; return -1; }
    return 0;
}

int setsockopt(int fd, int level, int name, const void* v, socklen_t n) noexcept
{
    if (!mine(fd)) { static auto f = real<int (*)(int, int, int, const void*, socklen_t)>("setsockopt"); return f(fd, level, name, v, n); }
    vt::Quiet q;
    Fd* f = get("setsockopt", fd);
    if (!f) return -1;
    if (fault("setsockopt", fd)) return -1;
    if (level == SOL_SOCKET && name == SO_RCVTIMEO && n >= sizeof(timeval)) {
        timeval tv;
        memcpy(&tv, v, sizeof tv);
        f->rcvtimeo = tv.tv_sec || tv.tv_usec ? tv.tv_sec * 1000000000ll + tv.tv_usec * 1000ll : -1;
    }
    return 0;
}
int getsockopt(int fd, int level, int name, void* v, socklen_t* n) noexcept
{
    if (!mine(fd)) { static auto f = real<int (*)(int, int, int, void*, socklen_t*)>("getsockopt"); return f(fd, level, name, v, n); }
    Fd* f = get("getsockopt", fd);
    if (!f) return -1;
    if (level == SOL_SOCKET && name == SO_RCVTIMEO && *n >= sizeof(timeval)) {
        timeval tv{ f->rcvtimeo < 0 ? 0 : f->rcvtimeo / 1000000000, f->rcvtimeo < 0 ? 0 : f->rcvtimeo % 1000000000 / 1000 };
        memcpy(v, &tv, sizeof tv);
        *n = sizeof tv;
        return 0;
    }
    memset(v, 0, *n);
    return 0;
}
int getsockname(int fd, struct sockaddr* a, socklen_t* n) noexcept
{
    if (!mine(fd)) { static auto f = real<int (*)(int, struct sockaddr*, socklen_t*)>("getsockname"); return f(fd, a, n); }
    Fd* f = get("getsockname", fd);
    if (!f) return -1;
    put(f->local, a, n, f->domain);
    return 0;
}
int getpeername(int fd, struct sockaddr* a, socklen_t* n) noexcept
{
    if (!mine(fd)) { static auto f = real<int (*)(int, struct sockaddr*, socklen_t*)>("getpeername"); return f(fd, a, n); }
    Fd* f = get("getpeername", fd);
    if (!f) return -1;
    if (!f->connected) { errno = ENOTCONN; return -1; }
    put(f->peer, a, n, f->domain);
    return 0;
}

ssize_t read(int fd, void* b, size_t n)
{
    if (!mine(fd)) { static auto f = real<ssize_t (*)(int, void*, size_t)>("read"); return f(fd, b, n); }
    auto r = receive("read", fd, b, n, 0, nullptr, nullptr);
    if (r > 0) __tsan_write_range(b, static_cast<size_t>(r));
    return r;
}
ssize_t recv(int fd, void* b, size_t n, int fl)
{
    if (!mine(fd)) { static auto f = real<ssize_t (*)(int, void*, size_t, int)>("recv"); return f(fd, b, n, fl); }
    auto r = receive("recv", fd, b, n, fl, nullptr, nullptr);
    if (r > 0) __tsan_write_range(b, static_cast<size_t>(r) < n ? static_cast<size_t>(r) : n);
    return r;
}
ssize_t recvfrom(int fd, void* b, size_t n, int fl, struct sockaddr* a, socklen_t* al)
{
    if (!mine(fd)) { static auto f = real<ssize_t (*)(int, void*, size_t, int, struct sockaddr*, socklen_t*)>("recvfrom"); return f(fd, b, n, fl, a, al); }
    auto r = receive("recvfrom", fd, b, n, fl, a, al);
    if (r > 0) __tsan_write_range(b, static_cast<size_t>(r) < n ? static_cast<size_t>(r) : n);
    if (r >= 0 && a) __tsan_write_range(a, sizeof(sockaddr_in));
    return r;
}
ssize_t recvmsg(int fd, struct msghdr* m, int fl)
{
    if (!mine(fd)) { static auto f = real<ssize_t (*)(int, struct msghdr*, int)>("recvmsg"); return f(fd, m, fl); }
    if (m->msg_iovlen < 1) return 0;
    socklen_t n = m->msg_namelen;
    auto r = receive("recvmsg", fd, m->msg_iov[0].iov_base, m->msg_iov[0].iov_len, fl, static_cast<sockaddr*>(m->msg_name), m->msg_name ? &n : nullptr);
    m->msg_namelen = n;
    return r;
}
ssize_t write(int fd, const void* b, size_t n)
{
    if (!mine(fd)) { static auto f = real<ssize_t (*)(int, const void*, size_t)>("write"); return f(fd, b, n); }
    __tsan_read_range(const_cast<void*>(b), n);
    return transmit("write", fd, b, n, 0, nullptr, 0);
}
ssize_t send(int fd, const void* b, size_t n, int fl)
{
    if (!mine(fd)) { static auto f = real<ssize_t (*)(int, const void*, size_t, int)>("send"); return f(fd, b, n, fl); }
    __tsan_read_range(const_cast<void*>(b), n);
    return transmit("send", fd, b, n, fl, nullptr, 0);
}
ssize_t sendto(int fd, const void* b, size_t n, int fl, const struct sockaddr* a, socklen_t al)
{
    if (!mine(fd)) { static auto f = real<ssize_t (*)(int, const void*, size_t, int, const struct sockaddr*, socklen_t)>("sendto"); return f(fd, b, n, fl, a, al); }
    __tsan_read_range(const_cast<void*>(b), n);
    return transmit("sendto", fd, b, n, fl, a, al);
}
ssize_t sendmsg(int fd, const struct msghdr* m, int fl)
{
    if (!mine(fd)) { static auto f = real<ssize_t (*)(int, const struct msghdr*, int)>("sendmsg"); return f(fd, m, fl); }
    std::string all;
    for (size_t i = 0; i < m->msg_iovlen; i++) all.append(static_cast<char*>(m->msg_iov[i].iov_base), m->msg_iov[i].iov_len);
    return transmit("sendmsg", fd, all.data(), all.size(), fl, static_cast<sockaddr*>(m->msg_name), m->msg_namelen);
}

static bool readable(Fd& d)
{
    if (d.listening) return !d.incoming.empty() || d.shut;
    return d.shut || (d.type == SOCK_STREAM ? !d.in.empty() || d.eof : !d.dgrams.empty());
}
static int do_poll(struct pollfd* p, nfds_t n, int64_t timeo)
{
    vt::Quiet q;
    vt::point("poll");
    auto scan = [p, n] {
        int c = 0;
        for (nfds_t i = 0; i < n; i++) {
            p[i].revents = 0;
            if (p[i].fd < 0) continue;
            auto d = st.fds.find(p[i].fd);
            if (d == st.fds.end()) p[i].revents = POLLNVAL;
            else {
                if ((p[i].events & POLLIN) && readable(d->second)) p[i].revents |= POLLIN;
                if (p[i].events & POLLOUT) p[i].revents |= POLLOUT;
                if (d->second.reset) p[i].revents |= POLLHUP;
            }
            if (p[i].revents) c++;
        }
        return c;
    };
    for (nfds_t i = 0; i < n; i++) if (p[i].fd >= 0 && !get("poll", p[i].fd)) return -1;
    for (nfds_t i = 0; i < n; i++) if (p[i].fd >= 0 && fault("poll", p[i].fd)) return -1;
    if (int c = scan()) return c;
    if (timeo == 0 || vt::tid() < 0) return 0;
    if (!vt::block("poll", [&] { return scan() > 0; }, timeo < 0 ? -1 : vt::now() + timeo)) return 0;
    return scan();
}
int poll(struct pollfd* p, nfds_t n, int ms)
{
    if (!on) { static auto f = real<int (*)(struct pollfd*, nfds_t, int)>("poll"); return f(p, n, ms); }
    return do_poll(p, n, ms < 0 ? -1 : static_cast<int64_t>(ms) * 1000000);
}
int ppoll(struct pollfd* p, nfds_t n, const struct timespec* t, const sigset_t*)
{
    return do_poll(p, n, !t ? -1 : t->tv_sec * 1000000000ll + t->tv_nsec);
}
int select(int n, fd_set* r, fd_set* w, fd_set* e, struct timeval* t)
{
    if (!on) { static auto f = real<int (*)(int, fd_set*, fd_set*, fd_set*, struct timeval*)>("select"); return f(n, r, w, e, t); }
    std::vector<pollfd> v;
    for (int i = 0; i < n; i++) {
        short ev = static_cast<short>((r && FD_ISSET(i, r) ? POLLIN : 0) | (w && FD_ISSET(i, w) ? POLLOUT : 0));
        if (ev) v.push_back({ i, ev, 0 });
    }
    int c = do_poll(v.data(), v.size(), !t ? -1 : t->tv_sec * 1000000000ll + t->tv_usec * 1000ll);
    if (r) FD_ZERO(r);
    if (w) FD_ZERO(w);
    if (e) FD_ZERO(e);
    for (auto& x : v) {
        if (x.revents & POLLIN) FD_SET(x.fd, r);
        if (x.revents & POLLOUT) FD_SET(x.fd, w);
    }
    return c;
}
}
