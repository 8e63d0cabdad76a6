#include "sched.hpp"

#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

#include <chrono>
#include <exception>
#include <map>
#include <memory>
#include <vector>

namespace {

constexpr int MAXT = 12;
const char* const FUTEX = "a future or atomic wait";
constexpr std::size_t STACK = 1 << 20;

struct VC {
    uint32_t c[MAXT] = {};
    void join(const VC& o) { for (int i = 0; i < MAXT; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; }
};

struct Eh { void* caught = nullptr; unsigned uncaught = 0; };
extern "C" Eh* __cxa_get_globals() noexcept;

struct Fiber {
    ucontext_t ctx;
    void* stack = nullptr;
    bool done = false, daemon = false, blocked = false, timedout = false, condwait = false, yielded = false, detached = false, spur = false;
    std::function<bool()> ready;
    int64_t deadline = -1;
    const char* what = "";
    VC vc;
    Eh eh;
    void* (*entry)(void*) = nullptr;
    void* arg = nullptr;
    void* ret = nullptr;
    std::function<void()> fn;
};

struct Mutex { int owner = -1; int count = 0; int readers = 0; VC vc; };
struct Cond { std::vector<int> waiting; VC vc; };

struct Choice { int n, cur; };

struct Shared {            // survives a crash of the child
    long executions, steps;
    int failed;
    char key[200];
    char desc[16384];
    int nchoices;
    int choices[4000];
    char name[200];
    int complete;
};

Shared* sh = nullptr;
bool g_active = false;
int g_rt = 0;              // inside the runtime or the environment
std::vector<std::unique_ptr<Fiber>> fibers;
int cur = -1;
ucontext_t sched_ctx;
std::vector<void*> stacks;
std::map<const void*, Mutex> mutexes;
std::map<const void*, Cond> conds;
std::map<const void*, VC> syncs;
std::map<const void*, int> futexes;
std::vector<Choice> choices;
std::size_t depth = 0;
vt::Bounds bounds;
int used_preempt, used_early, used_spurious;
long steps;
int64_t g_now;
std::vector<std::string> trace;
std::vector<void*> quarantine;

struct Rt { Rt() { ++g_rt; } ~Rt() { --g_rt; } };

bool in() { return g_active && g_rt == 0 && cur >= 0; }

// ------------------------------------------------------------------ choices
int pick(int n)
{
    if (n <= 1) return 0;
    if (depth == choices.size()) choices.push_back({ n, 0 });
    if (choices[depth].n != n) vt::fail("nondeterministic", "the execution does not follow the choices made (a fault of the harness)");
    int r = choices[depth].cur;
    if (depth < 4000) { sh->choices[depth] = r; }
    depth++;
    sh->nchoices = static_cast<int>(depth);
    return r;
}

bool advance()
{
    while (!choices.empty()) {
        if (++choices.back().cur < choices.back().n) return true;
        choices.pop_back();
    }
    return false;
}

void event(const char* what, const void* obj = nullptr)
{
    if (trace.size() > 600) trace.erase(trace.begin(), trace.begin() + 300);
    char b[120];
    snprintf(b, sizeof b, "%d:%s", cur, what);
    (void)obj;
    trace.push_back(b);
}

bool enabled(Fiber& f)
{
    if (f.done) return false;
    if (!f.blocked) return true;
    return f.ready && f.ready();
}

void switch_to(int i)
{
    if (i == cur) return;
    int old = cur;
    auto* eh = __cxa_get_globals();
    if (old >= 0) fibers[old]->eh = *eh;
    *eh = fibers[i]->eh;
    cur = i;
    int rt = g_rt;
    if (old >= 0) swapcontext(&fibers[old]->ctx, &fibers[i]->ctx);
    else swapcontext(&sched_ctx, &fibers[i]->ctx);
    g_rt = rt;
}

void to_scheduler()
{
    auto* eh = __cxa_get_globals();
    int old = cur;
    fibers[old]->eh = *eh;
    *eh = Eh{};
    cur = -1;
    swapcontext(&fibers[old]->ctx, &sched_ctx);
}

// decides who runs next; the current thread may be running, blocked, or done
void decide()
{
    if (++steps > bounds.steps) vt::fail("livelock", "no end after " + std::to_string(bounds.steps) + " steps");
    sh->steps++;
    struct Opt { int f, kind; int p, e, s; };  // kind 0 run, 1 timeout, 2 spurious
    Opt o[3 * MAXT];
    int n = 0;
    bool cure = enabled(*fibers[cur]);
    bool any = false;
    bool y = fibers[cur]->yielded;
    fibers[cur]->yielded = false;
    bool en[MAXT] = {};
    for (std::size_t i = 0; i < fibers.size(); i++) { en[i] = enabled(*fibers[i]); if (en[i]) any = true; }
    bool others = false;
    for (std::size_t i = 0; i < fibers.size(); i++) if (en[i] && static_cast<int>(i) != cur) others = true;
    int cost = cure && !y ? 1 : 0;
    if (cure && !(y && others)) o[n++] = { cur, 0, 0, 0, 0 };
    for (std::size_t i = 0; i < fibers.size(); i++)
        if (static_cast<int>(i) != cur && en[i]) o[n++] = { static_cast<int>(i), 0, cost, 0, 0 };
    int64_t first = -1;
    int ft = -1;
    for (std::size_t i = 0; i < fibers.size(); i++)
        if (fibers[i]->blocked && !fibers[i]->done && !en[i] && fibers[i]->deadline >= 0 && (first < 0 || fibers[i]->deadline < first)) { first = fibers[i]->deadline; ft = static_cast<int>(i); }
    // timeouts: the earliest deadline; further ones of the same instant as alternatives
    for (std::size_t i = 0; i < fibers.size(); i++)
        if (ft >= 0 && fibers[i]->blocked && !fibers[i]->done && !en[i] && fibers[i]->deadline == first)
            o[n++] = { static_cast<int>(i), 1, cost, any && first > g_now ? 1 : 0, 0 };
    for (std::size_t i = 0; i < fibers.size(); i++)
        if (fibers[i]->condwait && !fibers[i]->done && !en[i]) o[n++] = { static_cast<int>(i), 2, cost, 0, 1 };
    // keep what the budgets allow
    int k = 0;
    for (int i = 0; i < n; i++)
        if (used_preempt + o[i].p <= bounds.preempt && used_early + o[i].e <= bounds.early && used_spurious + o[i].s <= bounds.spurious) o[k++] = o[i];
    n = k;
    if (n == 0 || (!any && ft < 0)) {
        // nothing can happen by itself: a deadlock, or everything has ended
        bool stuck = false;
        for (auto& f : fibers) if (!f->done && !f->daemon) stuck = true;
        if (stuck) {
            std::string w;
            for (std::size_t i = 0; i < fibers.size(); i++)
                if (!fibers[i]->done) w += " thread " + std::to_string(i) + " waits in " + fibers[i]->what + ";";
            vt::fail("deadlock", "no thread can continue:" + w);
        }
        to_scheduler();
        return;
    }
    // when only daemons are left the execution is over
    bool alive = false;
    for (auto& f : fibers) if (!f->done && !f->daemon) alive = true;
    if (!alive) { to_scheduler(); return; }
    Opt& c = o[pick(n)];
    used_preempt += c.p;
    used_early += c.e;
    used_spurious += c.s;
    Fiber& f = *fibers[c.f];
    if (c.kind == 1) {
        if (f.deadline > g_now) g_now = f.deadline;
        f.timedout = true;
        f.blocked = false;
    } else if (c.kind == 2) {
        f.spur = true;
        f.blocked = false;
    } else if (f.blocked) {
        f.blocked = false;
        f.timedout = false;
    }
    if (c.f != cur) switch_to(c.f);
}

void fiber_main(int i)
{
    Fiber& f = *fibers[i];
    g_rt = 0;
    if (f.entry) f.ret = f.entry(f.arg);
    else f.fn();
    ++g_rt;
    event("ends");
    f.done = true;
    f.vc.c[i]++;
    decide();
    to_scheduler();
    abort();
}

int spawn(void* (*entry)(void*), void* arg, const std::function<void()>* fn, bool daemon)
{
    Rt rt;
    if (fibers.size() >= MAXT) vt::fail("threads", "more threads than the harness supports");
    auto f = std::make_unique<Fiber>();
    int i = static_cast<int>(fibers.size());
    f->entry = entry;
    f->arg = arg;
    if (fn) f->fn = *fn;
    f->daemon = daemon;
    if (cur >= 0) { f->vc = fibers[cur]->vc; fibers[cur]->vc.c[cur]++; }
    f->vc.c[i]++;
    if (stacks.size() <= static_cast<std::size_t>(i))
        stacks.push_back(mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    f->stack = stacks[i];
    getcontext(&f->ctx);
    f->ctx.uc_stack.ss_sp = f->stack;
    f->ctx.uc_stack.ss_size = STACK;
    f->ctx.uc_link = nullptr;
    makecontext(&f->ctx, reinterpret_cast<void (*)()>(fiber_main), 1, i);
    fibers.push_back(std::move(f));
    return i;
}

// ------------------------------------------------------------------ memory: races and lifetimes
struct Cell {
    uintptr_t addr;
    uint32_t gen;
    uint32_t wclk;
    uint8_t wtid, freed;
    uint32_t r[MAXT];
};
constexpr std::size_t CELLS = 1 << 20;
Cell* cells = nullptr;
uint32_t gen = 1;
std::size_t used_cells = 0;

Cell* cell(uintptr_t a, bool create)
{
    std::size_t h = (a * 0x9E3779B97F4A7C15ull) >> 44;
    for (std::size_t i = 0; i < CELLS; i++) {
        Cell& c = cells[(h + i) & (CELLS - 1)];
        if (c.gen != gen) {
            if (!create) return nullptr;
            if (++used_cells > CELLS / 2) return nullptr;
            memset(&c, 0, sizeof c);
            c.gen = gen;
            c.addr = a;
            return &c;
        }
        if (c.addr == a) return &c;
    }
    return nullptr;
}

void access(const void* p, std::size_t n, bool write, const char* kind)
{
    auto a = reinterpret_cast<uintptr_t>(p);
    Fiber& f = *fibers[cur];
    for (std::size_t i = 0; i < n; i++) {
        Cell* c = cell(a + i, true);
        if (!c) return;
        if (c->freed) { Rt rt; vt::fail(c->freed == 1 ? "use-after-free" : "use-after-destruction", std::string("thread ") + std::to_string(cur) + " " + kind + " memory " + (c->freed == 1 ? "that was freed" : "of an object that was destroyed")); }
        if (c->wclk && c->wtid != cur && c->wclk > f.vc.c[c->wtid]) { Rt rt; vt::fail("race", std::string("thread ") + std::to_string(cur) + " " + kind + " memory written by thread " + std::to_string(c->wtid) + " without synchronization"); }
        if (write) {
            for (int t = 0; t < MAXT; t++)
                if (t != cur && c->r[t] > f.vc.c[t]) { Rt rt; vt::fail("race", std::string("thread ") + std::to_string(cur) + " " + kind + " memory read by thread " + std::to_string(t) + " without synchronization"); }
            c->wclk = f.vc.c[cur];
            c->wtid = static_cast<uint8_t>(cur);
            memset(c->r, 0, sizeof c->r);
        } else {
            c->r[cur] = f.vc.c[cur];
        }
    }
}

void forget(const void* p, std::size_t n)
{
    auto a = reinterpret_cast<uintptr_t>(p);
    for (std::size_t i = 0; i < n; i++)
        if (Cell* c = cell(a + i, false)) { c->wclk = 0; c->freed = 0; memset(c->r, 0, sizeof c->r); }
}

void bury(const void* p, std::size_t n, uint8_t how)
{
    if (n > (1 << 16)) n = 1 << 16;
    access(p, n, true, how == 1 ? "frees" : "destroys");
    auto a = reinterpret_cast<uintptr_t>(p);
    for (std::size_t i = 0; i < n; i++)
        if (Cell* c = cell(a + i, true)) c->freed = how;
}

template <class F>
F real(const char* n)
{
    return reinterpret_cast<F>(dlsym(RTLD_NEXT, n));
}

}  // namespace

// ====================================================================== public interface
namespace vt {

bool active() { return in(); }
int tid() { return cur; }
int waiting()
{
    int n = 0;
    for (auto& f : fibers) if ((f->condwait || f->what == FUTEX) && f->blocked && !f->done && f->ready && !f->ready()) n++;
    return n;
}
int64_t now() { return g_now; }

Quiet::Quiet() { ++g_rt; }
Quiet::~Quiet() { --g_rt; }

void point(const char* what, const void* obj)
{
    if (!g_active || cur < 0) return;
    Rt rt;
    event(what, obj);
    decide();
}

bool block(const char* what, const std::function<bool()>& ready, int64_t deadline)
{
    Rt rt;
    Fiber& f = *fibers[cur];
    if (ready()) return true;
    f.what = what;
    event(what);
    for (;;) {
        f.blocked = true;
        f.timedout = false;
        f.ready = ready;
        f.deadline = deadline;
        decide();
        f.deadline = -1;
        if (f.timedout) { f.timedout = false; f.ready = nullptr; event("times out"); return false; }
        if (ready()) { f.ready = nullptr; return true; }
    }
}

int choose(int n, const char* what)
{
    Rt rt;
    int r = pick(n);
    event((std::string(what) + "=" + std::to_string(r)).c_str());
    return r;
}

void yield()
{
    if (!in()) return;
    Rt rt;
    fibers[cur]->yielded = true;
    event("yield");
    decide();
}

void note(const std::string& s)
{
    if (!g_active || cur < 0) return;
    Rt rt;
    event(s.c_str());
}

void fail(const std::string& key, const std::string& desc)
{
    ++g_rt;
    sh->failed = 1;
    snprintf(sh->key, sizeof sh->key, "%s", key.c_str());
    std::string d = desc + " | schedule: ";
    std::size_t from = trace.size() > 90 ? trace.size() - 90 : 0;
    for (std::size_t i = from; i < trace.size(); i++) d += trace[i] + " ";
    for (auto& c : d) if (static_cast<unsigned char>(c) < 32) c = ' ';
    snprintf(sh->desc, sizeof sh->desc, "%s", d.c_str());
    _exit(3);
}

void daemon(const std::function<void()>& fn, const char*)
{
    spawn(nullptr, nullptr, &fn, true);
}

void acquire(const void* s) { Rt rt; if (g_active && cur >= 0) fibers[cur]->vc.join(syncs[s]); }
void release(const void* s)
{
    Rt rt;
    if (!g_active || cur < 0) return;
    syncs[s].join(fibers[cur]->vc);
    fibers[cur]->vc.c[cur]++;
}

void dead(const void* p, std::size_t n) { if (!g_active || cur < 0) return; Rt rt; bury(p, n, 2); }

void check_live(const void* p, const char* what)
{
    if (!g_active || cur < 0) return;
    if (Cell* c = cell(reinterpret_cast<uintptr_t>(p), false); c && c->freed) { Rt rt; fail("use-after-destruction", std::string("thread ") + std::to_string(cur) + " calls " + what + " on an object that was destroyed"); }
}

int deepen(const std::string& name, const std::function<void()>& body, Bounds b)
{
    auto t0 = std::chrono::steady_clock::now();
    int most = b.preempt;
    double limit = b.seconds;
    int done = -1;
    for (int p = 0; p <= most; p++) {
        b.preempt = p;
        if (limit > 0) {
            b.seconds = limit - std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
            if (b.seconds <= 0) break;
        }
        int r = explore(name, body, b, p < most);
        if (r == 2) return 2;
        if (r == 1) break;
        done = p;
    }
    printf("INFO preemptions_%s=%d\n", name.c_str(), done);
    fflush(stdout);
    return done == most ? 0 : 1;
}

int explore(const std::string& name, const std::function<void()>& body, Bounds b, bool quiet)
{
    if (!sh) sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    memset(sh, 0, sizeof *sh);
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
        alarm(3000);
        bounds = b;
        std::set_terminate([] {
            std::string what = "std::terminate was called";
            if (auto e = std::current_exception()) {
                try { std::rethrow_exception(e); }
                catch (const std::exception& x) { what += std::string(": ") + x.what(); }
                catch (...) {}
            }
            fail("terminate", what);
        });
        cells = static_cast<Cell*>(mmap(nullptr, CELLS * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        auto t0 = std::chrono::steady_clock::now();
        for (;;) {
            depth = 0;
            used_preempt = used_early = used_spurious = 0;
            steps = 0;
            g_now = 1000000000000ll;
            trace.clear();
            mutexes.clear();
            conds.clear();
            syncs.clear();
            futexes.clear();
            fibers.clear();
            gen++;
            used_cells = 0;
            sh->nchoices = 0;
            cur = -1;
            spawn(nullptr, nullptr, &body, false);
            g_active = true;
            g_rt = 0;
            switch_to(0);
            g_active = false;
            g_rt = 0;
            for (auto* p : quarantine) free(p);
            quarantine.clear();
            sh->executions++;
            if (!advance()) { sh->complete = 1; break; }
            if (sh->executions >= b.executions) break;
            if (b.seconds > 0 && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > b.seconds) break;
        }
        _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    if (sh->failed) {
        printf("VIOL %s:%s\t%s\n", name.c_str(), sh->key, sh->desc);
    } else if (WIFSIGNALED(st) || WEXITSTATUS(st)) {
        std::string c;
        for (int i = 0; i < sh->nchoices && i < 4000; i++) c += std::to_string(sh->choices[i]) + " ";
        printf("VIOL %s:crash\tthe process ended with status %d; choices %s\n", name.c_str(), st, c.c_str());
    } else if (!sh->complete) {
        if (!quiet && b.seconds <= 0) printf("INFO incomplete_%s=%ld\n", name.c_str(), sh->executions);
        printf("STAT %ld %ld %ld\n", sh->executions, sh->steps, sh->executions);
        fflush(stdout);
        return 1;
    } else {
        printf("STAT %ld %ld %ld\n", sh->executions, sh->steps, sh->executions);
        fflush(stdout);
        return 0;
    }
    printf("STAT %ld %ld %ld\n", sh->executions, sh->steps, sh->executions);
    fflush(stdout);
    return 2;
}

}  // namespace vt

// ====================================================================== allocation
static void* vt_new(std::size_t n)
{
    void* p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    if (in()) { Rt rt; forget(p, malloc_usable_size(p)); }
    return p;
}
static void vt_delete(void* p)
{
    if (!p) return;
    if (in()) {
        Rt rt;
        bury(p, malloc_usable_size(p), 1);
        quarantine.push_back(p);
        return;
    }
    free(p);
}
void* operator new(std::size_t n) { return vt_new(n); }
void* operator new[](std::size_t n) { return vt_new(n); }
void operator delete(void* p) noexcept { vt_delete(p); }
void operator delete[](void* p) noexcept { vt_delete(p); }
void operator delete(void* p, std::size_t) noexcept { vt_delete(p); }
void operator delete[](void* p, std::size_t) noexcept { vt_delete(p); }

// ====================================================================== pthread
#define FWD(ret, name, params, args) static auto f = real<ret(*) params>(#name); return f args

static int lock_mutex(const void* m, const char* what, int64_t deadline = -1)
{
    Rt rt;
    vt::check_live(m, what);
    event(what, m);
    decide();
    if (mutexes[m].owner == cur) vt::fail("self-deadlock", "a thread locks a mutex it holds");
    int me = cur;
    if (!vt::block(what, [m] { return mutexes[m].owner < 0 && mutexes[m].readers == 0; }, deadline)) return ETIMEDOUT;
    vt::check_live(m, what);
    mutexes[m].owner = me;
    fibers[me]->vc.join(mutexes[m].vc);
    return 0;
}

static void unlock_mutex(const void* m)
{
    vt::check_live(m, "unlock");
    Mutex& x = mutexes[m];
    if (x.owner != cur && x.readers == 0) vt::fail("unlock", "a thread unlocks a mutex it does not hold");
    x.vc.join(fibers[cur]->vc);
    fibers[cur]->vc.c[cur]++;
    if (x.owner == cur) x.owner = -1;
    else x.readers--;
}

static int64_t ns(const struct timespec* t) { return t->tv_sec * 1000000000ll + t->tv_nsec; }
static int64_t sat(const struct timespec* t)
{
    if (t->tv_sec > 9000000000ll) return 9000000000ll * 1000000000ll;
    if (t->tv_sec < 0) return 0;
    return ns(t);
}

extern "C" {

int pthread_mutex_lock(pthread_mutex_t* m)
{
    if (in()) return lock_mutex(m, "lock");
    FWD(int, pthread_mutex_lock, (pthread_mutex_t*), (m));
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* t)
{
    if (in()) return lock_mutex(m, "timedlock", sat(t));
    FWD(int, pthread_mutex_timedlock, (pthread_mutex_t*, const struct timespec*), (m, t));
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* t)
{
    if (in()) return lock_mutex(m, "clocklock", sat(t));
    FWD(int, pthread_mutex_clocklock, (pthread_mutex_t*, clockid_t, const struct timespec*), (m, c, t));
}
int pthread_mutex_trylock(pthread_mutex_t* m)
{
    if (in()) {
        Rt rt;
        vt::check_live(m, "trylock");
        event("trylock");
        decide();
        Mutex& x = mutexes[m];
        if (x.owner >= 0 || x.readers) return EBUSY;
        x.owner = cur;
        fibers[cur]->vc.join(x.vc);
        return 0;
    }
    FWD(int, pthread_mutex_trylock, (pthread_mutex_t*), (m));
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
    if (in()) {
        Rt rt;
        unlock_mutex(m);
        event("unlock");
        return 0;
    }
    FWD(int, pthread_mutex_unlock, (pthread_mutex_t*), (m));
}
int pthread_mutex_destroy(pthread_mutex_t* m)
{
    if (in()) {
        Rt rt;
        if (mutexes[m].owner >= 0) vt::fail("mutex-destroyed", "a locked mutex is destroyed");
        return 0;
    }
    FWD(int, pthread_mutex_destroy, (pthread_mutex_t*), (m));
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m)
{
    if (in()) return lock_mutex(m, "wrlock");
    FWD(int, pthread_rwlock_wrlock, (pthread_rwlock_t*), (m));
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
    if (in()) {
        Rt rt;
        event("rdlock");
        decide();
        vt::block("rdlock", [m] { return mutexes[m].owner < 0; });
        mutexes[m].readers++;
        fibers[cur]->vc.join(mutexes[m].vc);
        return 0;
    }
    FWD(int, pthread_rwlock_rdlock, (pthread_rwlock_t*), (m));
}
int pthread_rwlock_unlock(pthread_rwlock_t* m)
{
    if (in()) {
        Rt rt;
        unlock_mutex(m);
        event("unlock");
        return 0;
    }
    FWD(int, pthread_rwlock_unlock, (pthread_rwlock_t*), (m));
}

static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, int64_t deadline)
{
    Rt rt;
    vt::check_live(c, "wait");
    int me = cur;
    event("wait", c);
    unlock_mutex(m);
    conds[c].waiting.push_back(me);
    Fiber& f = *fibers[me];
    f.what = deadline < 0 ? "a wait without timeout" : "a timed wait";
    f.condwait = true;
    f.spur = false;
    f.blocked = true;
    f.timedout = false;
    f.ready = [c, me] {
        for (int x : conds[c].waiting) if (x == me) return false;
        return true;
    };
    f.deadline = deadline;
    decide();
    f.condwait = false;
    f.deadline = -1;
    f.ready = nullptr;
    bool to = f.timedout;
    f.timedout = false;
    auto& w = conds[c].waiting;
    for (std::size_t i = 0; i < w.size(); i++) if (w[i] == me) { w.erase(w.begin() + static_cast<long>(i)); break; }
    event(to ? "wait times out" : f.spur ? "wakes spuriously" : "woken");
    f.spur = false;
    vt::check_live(m, "lock after a wait");
    if (mutexes[m].owner >= 0) vt::block("relock", [m] { return mutexes[m].owner < 0; });
    vt::check_live(m, "lock after a wait");
    mutexes[m].owner = me;
    fibers[me]->vc.join(mutexes[m].vc);
    return to ? ETIMEDOUT : 0;
}

int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    if (in()) return cond_wait(c, m, -1);
    FWD(int, pthread_cond_wait, (pthread_cond_t*, pthread_mutex_t*), (c, m));
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t)
{
    if (in()) return cond_wait(c, m, sat(t));
    FWD(int, pthread_cond_timedwait, (pthread_cond_t*, pthread_mutex_t*, const struct timespec*), (c, m, t));
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t)
{
    if (in()) return cond_wait(c, m, sat(t));
    FWD(int, pthread_cond_clockwait, (pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*), (c, m, k, t));
}
int pthread_cond_signal(pthread_cond_t* c)
{
    if (in()) {
        Rt rt;
        vt::check_live(c, "notify");
        event("notify_one", c);
        decide();
        vt::check_live(c, "notify");
        auto& w = conds[c].waiting;
        if (!w.empty()) {
            int i = pick(static_cast<int>(w.size()));
            w.erase(w.begin() + i);
        }
        return 0;
    }
    FWD(int, pthread_cond_signal, (pthread_cond_t*), (c));
}
int pthread_cond_broadcast(pthread_cond_t* c)
{
    if (in()) {
        Rt rt;
        vt::check_live(c, "notify");
        event("notify_all", c);
        decide();
        vt::check_live(c, "notify");
        conds[c].waiting.clear();
        return 0;
    }
    FWD(int, pthread_cond_broadcast, (pthread_cond_t*), (c));
}
int pthread_cond_destroy(pthread_cond_t* c)
{
    // waits for threads that still use it, as glibc does
    if (in()) {
        Rt rt;
        vt::block("destruction of a condition variable", [c] { return conds[c].waiting.empty(); });
        return 0;
    }
    FWD(int, pthread_cond_destroy, (pthread_cond_t*), (c));
}

int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg)
{
    if (in()) {
        *t = static_cast<pthread_t>(spawn(fn, arg, nullptr, false) + 1);
        Rt rt;
        event("create");
        return 0;
    }
    FWD(int, pthread_create, (pthread_t*, const pthread_attr_t*, void* (*)(void*), void*), (t, a, fn, arg));
}
int pthread_join(pthread_t t, void** r)
{
    if (in()) {
        Rt rt;
        auto i = static_cast<std::size_t>(t) - 1;
        if (i >= fibers.size() || fibers[i]->detached) vt::fail("join", "a thread that cannot be joined is joined");
        event("join");
        decide();
        vt::block("a join", [i] { return fibers[i]->done; });
        fibers[i]->detached = true;
        fibers[cur]->vc.join(fibers[i]->vc);
        if (r) *r = fibers[i]->ret;
        return 0;
    }
    FWD(int, pthread_join, (pthread_t, void**), (t, r));
}
int pthread_detach(pthread_t t)
{
    if (in()) { fibers[static_cast<std::size_t>(t) - 1]->detached = true; return 0; }
    FWD(int, pthread_detach, (pthread_t), (t));
}
pthread_t pthread_self(void)
{
    if (in()) return static_cast<pthread_t>(cur + 1);
    FWD(pthread_t, pthread_self, (void), ());
}

int sched_yield(void)
{
    if (in()) { vt::yield(); return 0; }
    return static_cast<int>(real<long (*)(long, ...)>("syscall")(SYS_sched_yield));
}
int clock_gettime(clockid_t k, struct timespec* t)
{
    if (in()) { t->tv_sec = g_now / 1000000000; t->tv_nsec = g_now % 1000000000; return 0; }
    static auto f = real<int (*)(clockid_t, struct timespec*)>("clock_gettime");
    return f(k, t);
}
static void sleep_until(int64_t d) { vt::block("a sleep", [] { return false; }, d); }
int nanosleep(const struct timespec* t, struct timespec* r)
{
    if (in()) { sleep_until(g_now + sat(t)); return 0; }
    FWD(int, nanosleep, (const struct timespec*, struct timespec*), (t, r));
}
int clock_nanosleep(clockid_t k, int fl, const struct timespec* t, struct timespec* r)
{
    if (in()) { sleep_until((fl & TIMER_ABSTIME) ? sat(t) : g_now + sat(t)); return 0; }
    FWD(int, clock_nanosleep, (clockid_t, int, const struct timespec*, struct timespec*), (k, fl, t, r));
}
int usleep(useconds_t u)
{
    if (in()) { sleep_until(g_now + static_cast<int64_t>(u) * 1000); return 0; }
    FWD(int, usleep, (useconds_t), (u));
}
unsigned int sleep(unsigned int s)
{
    if (in()) { sleep_until(g_now + static_cast<int64_t>(s) * 1000000000ll); return 0; }
    FWD(unsigned int, sleep, (unsigned int), (s));
}

long syscall(long n, ...)
{
    va_list ap;
    va_start(ap, n);
    long a[6];
    for (auto& x : a) x = va_arg(ap, long);
    va_end(ap);
    if (in() && n == SYS_futex) {
        Rt rt;
        auto* p = reinterpret_cast<int*>(a[0]);
        int op = static_cast<int>(a[1]) & FUTEX_CMD_MASK;
        vt::check_live(p, "futex");
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            event("futex wait");
            decide();
            if (__atomic_load_n(p, __ATOMIC_SEQ_CST) != static_cast<int>(a[2])) { errno = EAGAIN; return -1; }
            auto* t = reinterpret_cast<const struct timespec*>(a[3]);
            int64_t d = !t ? -1 : op == FUTEX_WAIT ? g_now + sat(t) : sat(t);
            int v = futexes[p];
            if (!vt::block(FUTEX, [p, v] { return futexes[p] != v; }, d)) { errno = ETIMEDOUT; return -1; }
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
            event("futex wake");
            futexes[p]++;
            decide();
            return 0;
        }
        vt::fail("futex", "an unsupported futex operation");
    }
    return real<long (*)(long, ...)>("syscall")(n, a[0], a[1], a[2], a[3], a[4], a[5]);
}

// ====================================================================== instrumentation
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define ACC(n) \
    void __tsan_read##n(void* p) { if (in()) access(p, n, false, "reads"); } \
    void __tsan_write##n(void* p) { if (in()) access(p, n, true, "writes"); } \
    void __tsan_unaligned_read##n(void* p) { if (in()) access(p, n, false, "reads"); } \
    void __tsan_unaligned_write##n(void* p) { if (in()) access(p, n, true, "writes"); } \
    void __tsan_volatile_read##n(void* p) { if (in()) access(p, n, false, "reads"); } \
    void __tsan_volatile_write##n(void* p) { if (in()) access(p, n, true, "writes"); } \
    void __tsan_read_write##n(void* p) { if (in()) access(p, n, true, "writes"); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void* p, std::size_t n) { if (in()) access(p, n > 4096 ? 4096 : n, false, "reads"); }
void __tsan_write_range(void* p, std::size_t n) { if (in()) access(p, n > 4096 ? 4096 : n, true, "writes"); }
// rewriting the same type is no change
void __tsan_vptr_update(void** p, void* v) { if (in() && *p != v) access(p, 8, true, "changes the type (constructs or destroys) of"); }
void __tsan_vptr_read(void** p) { if (in()) access(p, 8, false, "calls a virtual function of"); }
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

static void atomic_op(const volatile void* p, int mo, const char* what)
{
    if (!in()) return;
    Rt rt;
    vt::check_live(const_cast<const void*>(p), what);
    event(what);
    decide();
    vt::check_live(const_cast<const void*>(p), what);
    if (mo != __ATOMIC_RELAXED) {
        VC& s = syncs[const_cast<const void*>(p)];
        fibers[cur]->vc.join(s);
        s.join(fibers[cur]->vc);
        fibers[cur]->vc.c[cur]++;
    }
}

#define ATOM(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T* p, int mo) { atomic_op(p, mo, "atomic load"); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##bits##_store(volatile T* p, T v, int mo) { atomic_op(p, mo, "atomic store"); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_exchange(volatile T* p, T v, int mo) { atomic_op(p, mo, "atomic exchange"); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int mo) { atomic_op(p, mo, "atomic add"); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int mo) { atomic_op(p, mo, "atomic sub"); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int mo) { atomic_op(p, mo, "atomic and"); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int mo) { atomic_op(p, mo, "atomic or"); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int mo) { atomic_op(p, mo, "atomic xor"); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int) { atomic_op(p, mo, "atomic cas"); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int) { atomic_op(p, mo, "atomic cas"); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
ATOM(8, unsigned char) ATOM(16, unsigned short) ATOM(32, unsigned int) ATOM(64, unsigned long)

}  // extern "C"
