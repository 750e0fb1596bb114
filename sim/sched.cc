#include "sched.hh"
#include "rt.hh"

#include <cerrno>
#include <climits>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <linux/futex.h>
#include <map>
#include <pthread.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <unordered_map>
#include <vector>

namespace sched {

bool active = false;
thread_local void *user = nullptr;
uint64_t switches = 0, preemptions = 0, lock_waits = 0, sched_hash = 1469598103934665603ull, raced = 0;
void (*over_budget)() = nullptr;
void (*on_deadlock)(std::string const &) = nullptr;
void (*on_race)(std::string const &) = nullptr;
void (*on_switch)(int, int) = nullptr;
uint32_t (*draw)(uint32_t) = nullptr;

namespace {

constexpr int MAXT = 96;
enum State { Unused, Runnable, Blocked, Timed, Done, Joined };
struct VC {
    uint32_t c[MAXT]{};
    void join(VC const &o, int n) {
        for (int i = 0; i < n; ++i) { if (o.c[i] > c[i]) { c[i] = o.c[i]; } }
    }
};
struct Thread {
    pthread_t real{};
    State st{Unused};
    void const *on{nullptr};
    char const *what{""};
    int baton{0};
    bool timed_out{false};
    void *(*fn)(void *){nullptr};
    void *arg{nullptr};
    void *ret{nullptr};
    int64_t remaining{INT64_MAX};
    int64_t given{INT64_MAX};
    int held{0};
    int in_lpx{0};
    void *user{nullptr};
    VC vc;
};
Thread *ths = nullptr;
int nthreads = 0, live = 0, cur = 0, dying = -1;
thread_local int me = 0;
int intensity = 0;
bool preempt_access = false, races = false;
uint64_t resumed_at = 0;
int64_t countdown = INT64_MAX; // sync points until the next preemption
int64_t next_access = INT64_MAX;

struct Mutex { int owner{-1}; int count{0}; VC vc; };
struct RW { int writer{-1}; int readers{0}; VC vc; VC rvc; };
std::unordered_map<void const *, Mutex> *mutexes;
std::unordered_map<void const *, RW> *rws;
std::unordered_map<void const *, VC> *syncs;

bool in_mem = false;
struct Quiet { // allocations of the scheduler itself
    int old;
    bool om;
    Quiet() : old{rt::in_lpx}, om{in_mem} { rt::in_lpx = 0; in_mem = true; }
    ~Quiet() { rt::in_lpx = old; in_mem = om; }
};
Mutex &mtx(void const *m) { Quiet q; return (*mutexes)[m]; }
RW &rwl(void const *m) { Quiet q; return (*rws)[m]; }
VC &syn(void const *m) { Quiet q; return (*syncs)[m]; }

template <class F> F real(char const *name) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, name)); }

void mix(uint64_t x) { sched_hash = (sched_hash ^ x) * 1099511628211ull; }

void fwait(int *w) {
    while (__atomic_load_n(w, __ATOMIC_ACQUIRE) == 0) { syscall(SYS_futex, w, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); }
    __atomic_store_n(w, 0, __ATOMIC_RELEASE);
}
void fpost(int *w) {
    __atomic_store_n(w, 1, __ATOMIC_RELEASE);
    syscall(SYS_futex, w, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

void arm() {
    auto &t = ths[me];
    int64_t rem = t.remaining;
    int64_t a = next_access;
    int64_t n = rem < a ? rem : a;
    rt::next_event = n > (INT64_MAX >> 1) ? UINT64_MAX : rt::steps + static_cast<uint64_t>(n < 1 ? 1 : n);
}
void account() { // charge the running thread for its steps
    auto d = static_cast<int64_t>(rt::steps - resumed_at);
    resumed_at = rt::steps;
    auto &t = ths[me];
    if (t.remaining != INT64_MAX) { t.remaining -= d; }
    if (next_access != INT64_MAX) { next_access -= d; }
}
void draw_countdown() {
    static uint32_t const len[] = {0, 400, 100, 30, 8, 3};
    countdown = INT64_MAX;
    next_access = INT64_MAX;
    if (intensity == 0 || live < 2) { return; }
    uint32_t n = len[intensity];
    uint32_t d = draw(n + 1);
    countdown = d == 0 ? INT64_MAX : static_cast<int64_t>(d);
    if (preempt_access) {
        uint32_t e = draw(16); // 0: none
        if (e != 0) { next_access = 1 + static_cast<int64_t>(draw(1u << e)); }
    }
}

void gain() { // running again
    if (dying >= 0) {
        auto d = dying;
        dying = -1;
        real<int (*)(pthread_t, void **)>("pthread_join")(ths[d].real, nullptr);
    }
    cur = me;
    resumed_at = rt::steps;
    rt::in_lpx = ths[me].in_lpx;
    arm();
}
void transfer(int to) {
    if (to == me) { arm(); return; }
    account();
    ths[me].in_lpx = rt::in_lpx;
    ++switches;
    mix(static_cast<uint64_t>(to) * 31 + 7);
    mix(rt::steps);
    draw_countdown();
    int self = me;
    if (on_switch != nullptr) { on_switch(self, to); }
    fpost(&ths[to].baton);
    fwait(&ths[self].baton);
    gain();
}
int pick(bool others_only) {
    int cand[MAXT];
    int n = 0;
    for (int i = 0; i < nthreads; ++i) {
        int k = (cur + 1 + i) % nthreads;
        if (ths[k].st == Runnable && !(others_only && k == me)) { cand[n++] = k; }
    }
    if (n == 0) { // time passes only if nothing else can happen
        for (int i = 0; i < nthreads; ++i) {
            int k = (cur + 1 + i) % nthreads;
            if (ths[k].st == Timed && !(others_only && k == me)) { cand[n++] = k; }
        }
        if (n == 0) { return -1; }
        int k = cand[n > 1 ? draw(static_cast<uint32_t>(n)) : 0];
        ths[k].timed_out = true;
        ths[k].st = Runnable;
        return k;
    }
    return cand[n > 1 ? draw(static_cast<uint32_t>(n)) : 0];
}
void block(void const *on, char const *what, bool timed = false) {
    auto &t = ths[me];
    t.st = timed ? Timed : Blocked;
    t.on = on;
    t.what = what;
    t.timed_out = false;
    int k = pick(false);
    if (k < 0) {
        std::string s;
        for (int i = 0; i < nthreads; ++i) {
            if (ths[i].st == Blocked) { s += (s.empty() ? "" : ", ") + std::string("thread ") + std::to_string(i) + " in " + ths[i].what; }
        }
        on_deadlock(s);
        _exit(96);
    }
    transfer(k);
}
void wake(void const *on) {
    for (int i = 0; i < nthreads; ++i) {
        if ((ths[i].st == Blocked || ths[i].st == Timed) && ths[i].on == on) { ths[i].st = Runnable; }
    }
}
void preempt() {
    ++preemptions;
    int k = pick(true);
    if (k >= 0) { transfer(k); } else { draw_countdown(); arm(); }
}
void sync_point() {
    if (live < 2 || ths[me].held > 0) { return; }
    if (countdown != INT64_MAX && --countdown <= 0) { preempt(); }
}
void acq(VC const &v) { ths[me].vc.join(v, nthreads); }
void rel(VC &v) {
    v.join(ths[me].vc, nthreads);
    ++ths[me].vc.c[me];
}

void slow() {
    account();
    if (ths[me].remaining <= 0) { over_budget(); ths[me].remaining = INT64_MAX; }
    if (next_access <= 0) {
        next_access = INT64_MAX;
        if (live > 1 && ths[me].held == 0) { preempt(); }
    }
    arm();
}

// ---------------------------------------------------------------- races
struct Acc { uint32_t clk; uint8_t mask; uint8_t tid; void const *pc; };
struct Cell {
    Acc w{0, 0, 0, nullptr};
    std::vector<Acc> r;
};
std::unordered_map<uint64_t, Cell> *shadow;
extern "C" char __data_start, _end; // static memory of the program; only code under test is instrumented
std::unordered_map<uint64_t, uint32_t> *blocks; // granules of live memory of the code under test -> epoch

void access(void const *a, size_t n, bool w, bool atomic, void const *pc) {
    if (live < 2 || atomic || ths[me].held > 0) { return; }
    auto p = reinterpret_cast<uint64_t>(a);
    auto &my = ths[me].vc;
    for (uint64_t g = p >> 3; g <= (p + n - 1) >> 3; ++g) {
        if (blocks->count(g) == 0 && (p < reinterpret_cast<uint64_t>(&__data_start) || p >= reinterpret_cast<uint64_t>(&_end))) { continue; }
        uint64_t lo = p > (g << 3) ? p - (g << 3) : 0, hi = p + n < ((g + 1) << 3) ? p + n - (g << 3) : 8;
        auto mask = static_cast<uint8_t>(((1u << hi) - 1) & ~((1u << lo) - 1));
        Quiet quiet;
        auto &c = (*shadow)[g];
        ++raced;
        auto bad = [&](Acc const &x, char const *k) {
            if ((x.mask & mask) == 0 || x.tid == me || x.clk <= my.c[x.tid]) { return; }
            char buf[256];
            snprintf(buf, sizeof(buf), "unsynchronised %s of memory of the theory by two threads (%p, %p)", k, x.pc, pc);
            on_race(buf);
        };
        if (c.w.mask != 0) { bad(c.w, w ? "writes" : "write and read"); }
        if (w) {
            for (auto const &x : c.r) { bad(x, "read and write"); }
            c.w = {my.c[me], mask, static_cast<uint8_t>(me), pc};
            c.r.clear();
        } else {
            for (auto &x : c.r) {
                if (x.tid == me) { x = {my.c[me], static_cast<uint8_t>(x.clk == my.c[me] ? (x.mask | mask) : mask), static_cast<uint8_t>(me), pc}; goto next; }
            }
            c.r.push_back({my.c[me], mask, static_cast<uint8_t>(me), pc});
        next:;
        }
    }
}
void sync(void const *a, bool ac, bool re) {
    auto &v = syn(a);
    if (ac) { acq(v); }
    if (re) { rel(v); }
}
void mem(void *p, size_t n, bool alloc) {
    if (in_mem) { return; }
    Quiet quiet;
    auto b = reinterpret_cast<uint64_t>(p);
    for (uint64_t g = b >> 3; g < (b + n + 7) >> 3; ++g) {
        shadow->erase(g);
        if (alloc) { (*blocks)[g] = 0; } else { blocks->erase(g); }
    }
}

void *trampoline(void *arg) {
    auto k = static_cast<int>(reinterpret_cast<intptr_t>(arg));
    me = k;
    user = ths[k].user;
    fwait(&ths[k].baton);
    gain();
    ths[k].ret = ths[k].fn(ths[k].arg);
    account();
    ths[k].st = Done;
    --live;
    wake(&ths[k]);
    ++switches;
    draw_countdown();
    int n = pick(false);
    if (n < 0) { on_deadlock("exit of a thread"); _exit(96); }
    dying = k;
    if (on_switch != nullptr) { on_switch(k, n); }
    mix(static_cast<uint64_t>(n) * 131 + 5);
    // thread local objects are still to be destroyed: the next thread waits for that
    ++ths[k].held;
    rt::in_lpx = 0;
    rt::next_event = UINT64_MAX;
    fpost(&ths[n].baton);
    return nullptr;
}

} // namespace

int self() { return me; }
void hold() { if (active) { ++ths[me].held; } }
void release() { if (active) { --ths[me].held; } }
void point() {
    if (active) { sync_point(); }
}
void budget(uint64_t s) {
    account();
    ths[me].remaining = static_cast<int64_t>(s);
    ths[me].given = static_cast<int64_t>(s);
    arm();
}
uint64_t used() {
    account();
    return static_cast<uint64_t>(ths[me].given - ths[me].remaining);
}
void init(int in, bool access_, bool races_) {
    ths = new Thread[MAXT];
    mutexes = new std::unordered_map<void const *, Mutex>;
    rws = new std::unordered_map<void const *, RW>;
    syncs = new std::unordered_map<void const *, VC>;
    shadow = new std::unordered_map<uint64_t, Cell>;
    blocks = new std::unordered_map<uint64_t, uint32_t>;
    nthreads = live = 1;
    ths[0].st = Runnable;
    ths[0].real = pthread_self();
    ths[0].vc.c[0] = 1;
    intensity = in;
    preempt_access = access_;
    races = races_;
    rt::slow = slow;
    if (races) {
        rt::track = true;
        rt::on_access = access;
        rt::on_mem = mem;
    }
    rt::on_sync = sync;
    active = true;
}

} // namespace sched

using namespace sched;

extern "C" {

int pthread_create(pthread_t *th, pthread_attr_t const *at, void *(*fn)(void *), void *arg) {
    auto r = real<int (*)(pthread_t *, pthread_attr_t const *, void *(*)(void *), void *)>("pthread_create");
    if (!active) { return r(th, at, fn, arg); }
    if (nthreads == MAXT) { fprintf(stderr, "too many threads\n"); _exit(96); }
    int k = nthreads++;
    auto &t = ths[k];
    t.fn = fn;
    t.arg = arg;
    t.user = user;
    t.st = Runnable;
    t.vc = ths[me].vc;
    t.vc.c[k] = 1;
    ++ths[me].vc.c[me];
    ++live;
    int e = r(&t.real, nullptr, trampoline, reinterpret_cast<void *>(static_cast<intptr_t>(k)));
    if (e != 0) { fprintf(stderr, "cannot create thread\n"); _exit(96); }
    *th = static_cast<pthread_t>(k); // real identifiers are used again once a thread has ended
    account();
    draw_countdown();
    arm();
    sync_point();
    return 0;
}
int pthread_join(pthread_t th, void **ret) {
    if (!active) { return real<int (*)(pthread_t, void **)>("pthread_join")(th, ret); }
    if (th == 0 || th >= static_cast<pthread_t>(nthreads) || ths[th].st == Joined) { return ESRCH; }
    auto k = static_cast<int>(th);
    while (ths[k].st != Done) { block(&ths[k], "join"); }
    ths[k].st = Joined;
    acq(ths[k].vc);
    if (ret != nullptr) { *ret = ths[k].ret; }
    return 0;
}
int pthread_detach(pthread_t th) {
    if (!active) { return real<int (*)(pthread_t)>("pthread_detach")(th); }
    return 0;
}
static void lock(pthread_mutex_t *m) {
    while (true) {
        auto &x = mtx(m);
        if (x.owner < 0) { x.owner = me; x.count = 1; acq(x.vc); return; }
        if (x.owner == me && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) { ++x.count; return; }
        ++lock_waits;
        block(m, "mutex lock");
    }
}
static void unlock(pthread_mutex_t *m) {
    auto &x = mtx(m);
    if (x.owner != me) { return; }
    if (--x.count > 0) { return; }
    rel(x.vc);
    x.owner = -1;
    wake(m);
}
int pthread_mutex_lock(pthread_mutex_t *m) {
    if (!active) { return real<int (*)(pthread_mutex_t *)>("pthread_mutex_lock")(m); }
    sync_point();
    lock(m);
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
    if (!active) { return real<int (*)(pthread_mutex_t *)>("pthread_mutex_trylock")(m); }
    sync_point();
    auto &x = mtx(m);
    if (x.owner >= 0 && !(x.owner == me && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE)) { return EBUSY; }
    lock(m);
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
    if (!active) { return real<int (*)(pthread_mutex_t *)>("pthread_mutex_unlock")(m); }
    unlock(m);
    sync_point();
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t *m) {
    if (active) { mutexes->erase(m); }
    return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t *l) {
    if (!active) { return real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_rdlock")(l); }
    sync_point();
    while (true) {
        auto &x = rwl(l);
        if (x.writer < 0) { ++x.readers; acq(x.vc); return 0; }
        ++lock_waits;
        block(l, "shared lock");
    }
}
int pthread_rwlock_wrlock(pthread_rwlock_t *l) {
    if (!active) { return real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_wrlock")(l); }
    sync_point();
    while (true) {
        auto &x = rwl(l);
        if (x.writer < 0 && x.readers == 0) { x.writer = me; acq(x.vc); acq(x.rvc); return 0; }
        ++lock_waits;
        block(l, "exclusive lock");
    }
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) {
    if (!active) { return real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_tryrdlock")(l); }
    if (rwl(l).writer >= 0) { return EBUSY; }
    return pthread_rwlock_rdlock(l);
}
int pthread_rwlock_trywrlock(pthread_rwlock_t *l) {
    if (!active) { return real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_trywrlock")(l); }
    auto &x = rwl(l);
    if (x.writer >= 0 || x.readers > 0) { return EBUSY; }
    x.writer = me;
    acq(x.vc);
    acq(x.rvc);
    return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t *l) {
    if (!active) { return real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_unlock")(l); }
    auto &x = rwl(l);
    if (x.writer == me) { rel(x.vc); x.writer = -1; }
    else if (x.readers > 0) { --x.readers; rel(x.rvc); }
    wake(l);
    sync_point();
    return 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    if (!active) { return real<int (*)(pthread_cond_t *, pthread_mutex_t *)>("pthread_cond_wait")(c, m); }
    unlock(m);
    block(c, "condition wait");
    lock(m);
    return 0;
}
static int cond_timed(pthread_cond_t *c, pthread_mutex_t *m) {
    unlock(m);
    block(c, "timed condition wait", true);
    bool to = ths[me].timed_out;
    lock(m);
    return to ? ETIMEDOUT : 0;
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, timespec const *ts) {
    if (!active) { return real<int (*)(pthread_cond_t *, pthread_mutex_t *, timespec const *)>("pthread_cond_timedwait")(c, m, ts); }
    return cond_timed(c, m);
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, timespec const *ts) {
    if (!active) { return real<int (*)(pthread_cond_t *, pthread_mutex_t *, clockid_t, timespec const *)>("pthread_cond_clockwait")(c, m, k, ts); }
    return cond_timed(c, m);
}
int pthread_cond_signal(pthread_cond_t *c) {
    if (!active) { return real<int (*)(pthread_cond_t *)>("pthread_cond_signal")(c); }
    int cand[MAXT];
    int n = 0;
    for (int i = 0; i < nthreads; ++i) {
        if ((ths[i].st == Blocked || ths[i].st == Timed) && ths[i].on == c) { cand[n++] = i; }
    }
    if (n > 0) { ths[cand[n > 1 ? draw(static_cast<uint32_t>(n)) : 0]].st = Runnable; }
    sync_point();
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) {
    if (!active) { return real<int (*)(pthread_cond_t *)>("pthread_cond_broadcast")(c); }
    wake(c);
    sync_point();
    return 0;
}
static void yield_now() {
    int k = pick(true);
    if (k >= 0) { transfer(k); }
}
int sched_yield() {
    if (!active) { return real<int (*)()>("sched_yield")(); }
    yield_now();
    return 0;
}
int nanosleep(timespec const *a, timespec *b) {
    if (!active) { return real<int (*)(timespec const *, timespec *)>("nanosleep")(a, b); }
    yield_now();
    return 0;
}
int clock_nanosleep(clockid_t c, int f, timespec const *a, timespec *b) {
    if (!active) { return real<int (*)(clockid_t, int, timespec const *, timespec *)>("clock_nanosleep")(c, f, a, b); }
    yield_now();
    return 0;
}
// initialisation of local statics
int __cxa_guard_acquire(uint64_t *gu) {
    auto *b = reinterpret_cast<unsigned char *>(gu);
    if (!active) {
        auto r = real<int (*)(uint64_t *)>("__cxa_guard_acquire");
        return r(gu);
    }
    while (true) {
        if (b[0] != 0) { acq(syn(gu)); return 0; }
        if (b[1] == 0) { b[1] = 1; acq(syn(gu)); return 1; } // a failed attempt comes before the next one
        block(gu, "initialisation of a static");
    }
}
void __cxa_guard_release(uint64_t *gu) {
    auto *b = reinterpret_cast<unsigned char *>(gu);
    if (!active) { return real<void (*)(uint64_t *)>("__cxa_guard_release")(gu); }
    rel(syn(gu));
    b[1] = 0;
    b[0] = 1;
    wake(gu);
}
void __cxa_guard_abort(uint64_t *gu) {
    auto *b = reinterpret_cast<unsigned char *>(gu);
    if (!active) { return real<void (*)(uint64_t *)>("__cxa_guard_abort")(gu); }
    rel(syn(gu));
    b[1] = 0;
    wake(gu);
}
}
