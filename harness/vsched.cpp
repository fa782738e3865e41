// See vsched.h. Not instrumented itself.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "vsched.h"
#include <pthread.h>
#include <semaphore.h>
#include <dlfcn.h>
#include <errno.h>
#include <time.h>
#include <unistd.h>
#include <string.h>
#include <stdarg.h>
#include <sys/syscall.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <csignal>
#include <linux/futex.h>
#include <map>
#include <vector>
#include <atomic>

static inline long raw6(long n, long a, long b, long c, long d, long e, long f) {
    long r;
    register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                     : "rcx", "r11", "memory");
    return r;
}

namespace {
enum St { RUN, BLOCKED, DONE };
struct VT {
    int id; St st = RUN; const void* obj = nullptr; int64_t deadline = -1; bool timed_out = false; bool wall = false;
    std::atomic<int> baton{0}; pthread_t pt{}; int prio = 0; bool detached = false;
    void* (*fn)(void*) = nullptr; void* arg = nullptr;
    uint64_t ran = 0;
    bool parked = false; uint64_t park_until = 0; const void* park_at = nullptr;     // strategy 3
};
struct Mx { int owner = -1; int depth = 0; };
struct Sem { unsigned v = 0; };

struct Sched {
    bool on = false;
    vs::Config c;
    std::vector<VT*> t;
    int cur = 0;
    uint64_t rng = 1;
    uint64_t vtime = 0;
    int64_t step = 0;               // how far the system clock was set forward or back (ns)
    uint64_t steps = 0, switches = 0, sw_progress = 0, st_progress = 0;
    int jumps = 0;             // times that time passed although threads (spinning) could run
    int64_t armed = 0;
    uint64_t run_since_switch = 0;
    std::vector<uint64_t> change;
    int low_prio = 0;
    std::map<const void*, Mx> mx;
    std::map<const void*, Sem> sem;
    char* mem = nullptr; size_t cap = 0, len = 0;
} S;

int64_t g_countdown = INT64_MAX;
bool g_hunt = false;          // strategy 3: threads wait right before accesses to what other threads use too
struct Seen { uintptr_t a; int t; bool w; };
constexpr size_t SEEN = 1 << 17;
Seen g_seen[SEEN];            // (every address has its own entry: what happens does not depend on addresses)
size_t g_nseen = 0;
int g_parked = 0;
int g_quiet = 0;              // >0: no preemption (inside the scheduler or while an event is written)
char sleep_obj;
thread_local VT* t_self __attribute__((tls_model("initial-exec"))) = nullptr;
pthread_key_t g_exit_key;

uint64_t rnd() {
    uint64_t z = (S.rng += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
uint64_t rndn(uint64_t n) { return rnd() % n; }

template <class F> F real(const char* n) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, n)); }

void finish(const char* what) {
    std::string s = std::string("{\"e\":\"") + what + "\",\"t\":" + std::to_string(S.cur) + ",\"blocked\":[";
    bool first = true;
    for (auto* v : S.t) if (v->st == BLOCKED) { s += (first ? "" : ",") + std::to_string(v->id); first = false; }
    s += "],\"states\":[";
    first = true;
    for (auto* v : S.t) { s += (first ? "" : ",") + std::to_string((int)v->st); first = false; }
    s += "],\"steps\":" + std::to_string(S.steps % 1000000000) + ",\"sw\":" + std::to_string(S.switches - S.sw_progress) + ",\"since\":" + std::to_string((S.steps - S.st_progress) % 1000000000) + "}";
    vs::log_raw(s);
    vs::die(3);
}

void arm() {
    int64_t n;
    if (S.c.strategy == 0 || S.c.strategy == 3) {
        // geometric-like, heavy at short distances
        uint64_t m = (uint64_t)S.c.mem_mean;
        n = 1 + (int64_t)rndn(rndn(4) == 0 ? 2 * m * 4 : m);
    } else if (S.c.strategy == 1) {
        n = 1 << 14;
        for (auto cp : S.change) if (cp != UINT64_MAX && cp > S.steps && (int64_t)(cp - S.steps) < n) n = (int64_t)(cp - S.steps);
    } else n = 1 << 13;
    S.armed = n; g_countdown = n;
}

void account() { int64_t used = S.armed - g_countdown; if (used > 0) { S.steps += used; S.run_since_switch += used; } S.armed = g_countdown; }

bool fire_earliest() {       // let time pass to the earliest deadline
    int64_t best = -1;
    for (auto* v : S.t) if (v->st == BLOCKED && v->deadline >= 0 && (best < 0 || v->deadline < best)) best = v->deadline;
    if (best < 0) return false;
    if ((uint64_t)best > S.vtime) S.vtime = best;
    for (auto* v : S.t) if (v->st == BLOCKED && v->deadline >= 0 && v->deadline <= (int64_t)S.vtime) {
        v->st = RUN; v->timed_out = true; v->obj = nullptr; v->deadline = -1;
    }
    return true;
}
void fire_due() {
    for (auto* v : S.t) if (v->st == BLOCKED && v->deadline >= 0 && v->deadline <= (int64_t)S.vtime) {
        v->st = RUN; v->timed_out = true; v->obj = nullptr; v->deadline = -1;
    }
}

int pick(bool keep_ok) {
    fire_due();
    if (S.c.spurious_permille && rndn(1000) < (uint64_t)S.c.spurious_permille) {
        std::vector<VT*> w;
        for (auto* v : S.t) if (v->st == BLOCKED && v->obj != &sleep_obj) w.push_back(v);
        if (!w.empty()) { VT* v = w[rndn(w.size())]; v->st = RUN; v->obj = nullptr; v->deadline = -1; v->timed_out = false; }
    }
    if (S.c.jump_permille && rndn(1000) < (uint64_t)S.c.jump_permille) fire_earliest();
    for (;;) {
        std::vector<int> r;
        for (auto* v : S.t) if (v->st == RUN) r.push_back(v->id);
        if (g_parked) {      // those that wait for the others to come along
            std::vector<int> q;
            for (int i : r) { VT* v = S.t[i]; if (v->parked && v->park_until <= S.steps) { v->parked = false; --g_parked; } if (!v->parked) q.push_back(i); }
            if (q.empty() && !r.empty()) { VT* v = S.t[r[rndn(r.size())]]; v->parked = false; --g_parked; return v->id; }
            r = q;
        }
        if (r.empty()) { if (!fire_earliest()) finish("deadlock"); continue; }
        // only spinning threads: time passes
        if (S.steps - S.st_progress > 400000 && S.jumps < 400 && fire_earliest()) {
            ++S.jumps; S.st_progress = S.steps; S.sw_progress = S.switches;
            continue;
        }
        if (r.size() == 1 && r[0] == S.cur && S.run_since_switch > 20000 && S.steps - S.st_progress > 20000) {
            if (fire_earliest()) { S.run_since_switch = 0; continue; }
        }
        if (S.c.strategy == 1) {
            int b = r[0];
            for (int i : r) if (S.t[i]->prio > S.t[b]->prio) b = i;
            return b;
        }
        if (S.c.strategy == 2) {
            if (keep_ok && S.t[S.cur]->st == RUN && S.run_since_switch < 8000) return S.cur;
        }
        return r[rndn(r.size())];
    }
}

void wait_baton(VT* v) {
    while (v->baton.load(std::memory_order_acquire) == 0)
        raw6(SYS_futex, (long)&v->baton, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
    v->baton.store(0, std::memory_order_relaxed);
}
void give(VT* v) {
    v->baton.store(1, std::memory_order_release);
    raw6(SYS_futex, (long)&v->baton, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}

void check_live() {
    // hundreds of threads that spin side by side need many more turns before the one that matters has had its own
    uint64_t n = S.t.size() > 32 ? S.t.size() : 0;
    if (S.steps - S.st_progress > 20000000ull + n * 100000 || S.switches - S.sw_progress > 250000ull + n * 2000) finish("livelock");
}

void resched(bool keep_ok) {      // the caller may be RUN or BLOCKED
    VT* me = t_self;
    ++g_quiet;
    account();
    S.switches++;
    check_live();
    if (S.c.strategy == 1) {
        bool changed = false;
        for (auto& cp : S.change) if (cp <= S.steps) { cp = UINT64_MAX; changed = true; }
        if (changed || S.run_since_switch > 12000) { me->prio = --S.low_prio; S.run_since_switch = 0; }
    }
    int n = pick(keep_ok);
    if (n != S.cur) { S.run_since_switch = 0; if (S.c.tick_ns) S.vtime += 100; }
    S.cur = n;
    arm();
    if (S.t[n] == me) { --g_quiet; return; }
    VT* to = S.t[n];
    bool done = me->st == DONE;
    g_quiet = 0;
    give(to);                     // from here on the other thread runs
    if (!done) wait_baton(me);
}

void sync_point() {
    if (!S.on || g_quiet) return;
    g_countdown--;
    if (S.c.strategy == 1) { if (g_countdown <= 0) resched(true); return; }
    if ((S.c.strategy == 0 || S.c.strategy == 3) && rndn(100) < (uint64_t)S.c.sync_pct) resched(true);
    else if (g_countdown <= 0) resched(true);
}

// strategy 3: the caller is about to access p
void __attribute__((noinline)) hunt(const void* p, bool w) {
    uintptr_t a = (uintptr_t)p >> 3;
    size_t h = (a * 0x9E3779B97F4A7C15ull) >> 47;
    while (g_seen[h].a && g_seen[h].a != a) h = (h + 1) & (SEEN - 1);
    if (!g_seen[h].a && ++g_nseen > SEEN / 2) { --g_nseen; return; }
    Seen& e = g_seen[h];
    int me = S.cur;
    bool shared = e.a == a && e.t != me && (w || e.w);
    if (e.a != a || e.t != me || w) e = Seen{a, e.a == a && e.t != me && !w && e.w ? e.t : me, w || (e.a == a && e.w)};
    if (g_parked) for (auto* v : S.t) if (v->parked && v->park_at == (void*)a && rndn(2)) { v->parked = false; --g_parked; }
    if (shared && S.switches - S.sw_progress < 20000 && rndn(100) < (uint64_t)S.c.hunt_pct) {
        static const uint64_t span[] = {30, 200, 1000, 4000, 15000};
        account();
        t_self->parked = true; t_self->park_until = S.steps + 1 + rndn(span[rndn(5)]); t_self->park_at = (void*)a; ++g_parked;
        resched(false);
        if (t_self->parked) { t_self->parked = false; --g_parked; }
    }
}

const int64_t WALL = 1ll << 62;     // marks a deadline of the system clock
// blocks the caller on obj; true if timed out
bool block(const void* obj, int64_t deadline) {
    VT* me = t_self;
    g_quiet = 0;
    me->wall = deadline >= WALL;
    if (me->wall) { deadline -= WALL + S.step; if (deadline < 0) deadline = 0; }
    me->st = BLOCKED; me->obj = obj; me->deadline = deadline; me->timed_out = false;
    resched(false);
    return me->timed_out;
}
int wake(const void* obj, int n) {
    int k = 0;
    while (k < n) {
        std::vector<VT*> w;
        for (auto* v : S.t) if (v->st == BLOCKED && v->obj == obj) w.push_back(v);
        if (w.empty()) break;
        VT* v = w[rndn(w.size())];
        v->st = RUN; v->obj = nullptr; v->deadline = -1; v->timed_out = false; ++k;
    }
    return k;
}
int64_t abs_to_v(clockid_t clk, const struct timespec* ts) {
    int64_t ns = (int64_t)ts->tv_sec * 1000000000ll + ts->tv_nsec;
    if (clk != CLOCK_REALTIME) return ns < 0 ? 0 : ns < WALL ? ns : WALL - 1;
    ns -= (int64_t)S.c.epoch_s * 1000000000ll;
    return WALL + (ns < 0 ? 0 : ns < WALL ? ns : WALL - 1);
}
void exit_hook(void*) {          // after the C++ thread_local destructors
    VT* me = t_self;
    if (!me || !S.on) return;
    me->st = DONE;
    wake(me, 1 << 30);
    resched(false);
}
void* tramp(void* p) {
    VT* v = (VT*)p;
    t_self = v;
    wait_baton(v);
    pthread_setspecific(g_exit_key, v);
    return v->fn(v->arg);
}
inline bool on() { return S.on && t_self; }
}  // namespace

namespace vs {
static long g_tid_base = 5000;
long tid() { return g_tid_base + (t_self ? t_self->id : 999); }
void fork_on() {
    ++g_quiet;
    pid_t c = fork();
    if (c == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); --g_quiet; return; }
    int st = 0;
    while (c > 0 && waitpid(c, &st, 0) < 0 && errno == EINTR) {}
    if (c > 0 && WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); raw6(SYS_kill, getpid(), WTERMSIG(st), 0, 0, 0, 0); }
    die(c < 0 ? 8 : WEXITSTATUS(st));
}
void begin(const Config& c) {
    pthread_atfork(nullptr, nullptr, [] { g_tid_base += 10000; });      // a thread of a new process has a new id
    S.c = c; S.rng = c.seed * 0x2545F4914F6CDD1Dull + 12345; S.on = true;
    pthread_key_create(&g_exit_key, exit_hook);
    VT* v = new VT; v->id = 0; v->prio = 1000 + (int)rndn(1000);
    t_self = v; S.t.push_back(v); S.cur = 0; v->pt = pthread_self();
    if (c.strategy == 1) for (int i = 0; i < c.change_points; ++i) {
        uint64_t span = 1ull << (8 + rndn(10));
        S.change.push_back(1 + rndn(span));
    }
    g_hunt = c.strategy == 3;
    arm();
}
bool active() { return on(); }
int self() { return t_self ? t_self->id : -1; }
uint64_t now_ns() { return S.vtime; }
void advance_ns(uint64_t ns) { S.vtime += ns; }
void clock_step(int64_t ns) {       // somebody sets the system clock; who waits for a time of it waits longer or less
    S.step += ns;
    for (auto* v : S.t) if (v->st == BLOCKED && v->wall && v->deadline >= 0) v->deadline = v->deadline > ns ? v->deadline - ns : 0;
}
void point() { sync_point(); }
bool others_blocked() {
    fire_due();
    for (auto* v : S.t) if (v->st == RUN && v != t_self) return false;
    return true;
}
void quiet(int d) { g_quiet += d; }
uint64_t points() { account(); return S.steps; }
void log_attach(char* mem, size_t cap) { S.mem = mem; S.cap = cap; S.len = 0; mem[0] = 0; }
void log_raw(const std::string& j) {
    if (!S.mem) return;
    if (S.len + j.size() + 64 > S.cap) {         // an execution that goes on and on
        static const char e[] = ",{\"e\":\"endless\",\"t\":0}";
        memcpy(S.mem + S.len, e, sizeof e);
        die(3);
    }
    memcpy(S.mem + S.len + (S.len ? 1 : 0), j.data(), j.size());
    S.mem[S.len + (S.len ? 1 : 0) + j.size()] = 0;
    if (S.len) S.mem[S.len] = ',';
    S.len += j.size() + (S.len ? 1 : 0);
    account(); S.st_progress = S.steps; S.sw_progress = S.switches; S.jumps = 0;
}
size_t log_size() { return S.len; }
void die(int code) { raw6(SYS_exit_group, code, 0, 0, 0, 0, 0); __builtin_unreachable(); }
}  // namespace vs

// ---------------------------------------------------------------- interposed functions
extern "C" {
int pthread_create(pthread_t* pt, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
    static auto r = real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create");
    if (!on()) return r(pt, a, fn, arg);
    VT* v = new VT; v->id = (int)S.t.size(); v->fn = fn; v->arg = arg; v->prio = 1000 + (int)rndn(1000);
    S.t.push_back(v);
    int rc = r(pt, a, tramp, v);
    if (rc) { v->st = DONE; return rc; }
    v->pt = *pt;
    sync_point();
    return 0;
}
int pthread_join(pthread_t pt, void** ret) {
    static auto r = real<int (*)(pthread_t, void**)>("pthread_join");
    if (!on()) return r(pt, ret);
    sync_point();
    for (auto* v : S.t) if (v->id && pthread_equal(v->pt, pt) && !v->detached) {
        if (v == t_self) return EDEADLK;
        while (v->st != DONE) block(v, -1);
        v->detached = true;
        break;
    }
    return r(pt, ret);
}
int pthread_mutex_lock(pthread_mutex_t* m) {
    static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
    if (!on()) return r(m);
    sync_point();
    Mx* x = &S.mx[m];
    if (x->owner == t_self->id && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) { x->depth++; return 0; }
    while (x->owner >= 0) block(m, -1);
    x->owner = t_self->id; x->depth = 1;
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock");
    if (!on()) return r(m);
    sync_point();
    Mx* x = &S.mx[m];
    if (x->owner >= 0) {
        if (x->owner == t_self->id && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) { x->depth++; return 0; }
        return EBUSY;
    }
    x->owner = t_self->id; x->depth = 1;
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock");
    if (!on()) return r(m);
    Mx* x = &S.mx[m];
    if (x->depth > 1) { x->depth--; return 0; }
    x->owner = -1; x->depth = 0;
    wake(m, 1 << 30);
    sync_point();
    return 0;
}
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
    static auto r = real<int (*)(pthread_mutex_t*, const pthread_mutexattr_t*)>("pthread_mutex_init");
    if (on()) S.mx.erase(m);
    return r(m, a);
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
    static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_destroy");
    if (on()) S.mx.erase(m);
    return r(m);
}
static void relock(pthread_mutex_t* m) {
    Mx* x = &S.mx[m];
    while (x->owner >= 0) block(m, -1);
    x->owner = t_self->id; x->depth = 1;
}
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, int64_t dl) {
    sync_point();
    S.mx[m].owner = -1; S.mx[m].depth = 0;
    wake(m, 1 << 30);
    bool to = block(c, dl);
    relock(m);
    return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    static auto r = real<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait");
    if (!on()) return r(c, m);
    return cond_wait(c, m, -1);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
    static auto r = real<int (*)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*)>("pthread_cond_timedwait");
    if (!on()) return r(c, m, ts);
    return cond_wait(c, m, abs_to_v(CLOCK_REALTIME, ts));
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts) {
    static auto r = real<int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*)>("pthread_cond_clockwait");
    if (!on()) return r(c, m, k, ts);
    return cond_wait(c, m, abs_to_v(k, ts));
}
int pthread_cond_signal(pthread_cond_t* c) {
    static auto r = real<int (*)(pthread_cond_t*)>("pthread_cond_signal");
    if (!on()) return r(c);
    wake(c, 1);
    sync_point();
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
    static auto r = real<int (*)(pthread_cond_t*)>("pthread_cond_broadcast");
    if (!on()) return r(c);
    wake(c, 1 << 30);
    sync_point();
    return 0;
}
int pthread_cond_destroy(pthread_cond_t* c) {
    static auto r = real<int (*)(pthread_cond_t*)>("pthread_cond_destroy");
    if (!on()) return r(c);
    return 0;
}
int sem_init(sem_t* s, int sh, unsigned v) {
    static auto r = real<int (*)(sem_t*, int, unsigned)>("sem_init");
    if (!on()) return r(s, sh, v);
    S.sem[s].v = v;
    return 0;
}
int sem_destroy(sem_t* s) {
    static auto r = real<int (*)(sem_t*)>("sem_destroy");
    if (!on()) return r(s);
    S.sem.erase(s);
    return 0;
}
int sem_post(sem_t* s) {
    static auto r = real<int (*)(sem_t*)>("sem_post");
    if (!on()) return r(s);
    S.sem[s].v++;
    wake(s, 1 << 30);
    sync_point();
    return 0;
}
int sem_wait(sem_t* s) {
    static auto r = real<int (*)(sem_t*)>("sem_wait");
    if (!on()) return r(s);
    sync_point();
    while (S.sem[s].v == 0) block(s, -1);
    S.sem[s].v--;
    return 0;
}
int sem_trywait(sem_t* s) {
    static auto r = real<int (*)(sem_t*)>("sem_trywait");
    if (!on()) return r(s);
    sync_point();
    if (S.sem[s].v == 0) { errno = EAGAIN; return -1; }
    S.sem[s].v--;
    return 0;
}
int sem_clockwait(sem_t* s, clockid_t k, const struct timespec* ts) {
    static auto r = real<int (*)(sem_t*, clockid_t, const struct timespec*)>("sem_clockwait");
    if (!on()) return r(s, k, ts);
    sync_point();
    while (S.sem[s].v == 0) if (block(s, abs_to_v(k, ts))) { errno = ETIMEDOUT; return -1; }
    S.sem[s].v--;
    return 0;
}
int sem_timedwait(sem_t* s, const struct timespec* ts) {
    static auto r = real<int (*)(sem_t*, const struct timespec*)>("sem_timedwait");
    if (!on()) return r(s, ts);
    return sem_clockwait(s, CLOCK_REALTIME, ts);
}
int sched_yield(void) {
    if (!on()) return (int)raw6(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
    if (S.c.strategy == 1) { t_self->prio = --S.low_prio; }
    resched(false);
    return 0;
}
int clock_gettime(clockid_t k, struct timespec* ts) {
    if (!on()) { long r = raw6(SYS_clock_gettime, k, (long)ts, 0, 0, 0, 0); if (r < 0) { errno = (int)-r; return -1; } return 0; }
    S.vtime += S.c.tick_ns;
    uint64_t ns = S.vtime;
    ts->tv_sec = (time_t)(ns / 1000000000ull); ts->tv_nsec = (long)(ns % 1000000000ull);
    if (k == CLOCK_REALTIME || k == CLOCK_REALTIME_COARSE) {
        int64_t w = (int64_t)ts->tv_nsec + S.step % 1000000000ll;
        ts->tv_sec += (time_t)S.c.epoch_s + (time_t)(S.step / 1000000000ll);
        if (w < 0) { w += 1000000000ll; --ts->tv_sec; }
        if (w >= 1000000000ll) { w -= 1000000000ll; ++ts->tv_sec; }
        ts->tv_nsec = (long)w;
    }
    return 0;
}
int clock_nanosleep(clockid_t k, int flags, const struct timespec* rq, struct timespec* rm) {
    static auto r = real<int (*)(clockid_t, int, const struct timespec*, struct timespec*)>("clock_nanosleep");
    if (!on()) return r(k, flags, rq, rm);
    int64_t dl = (flags & TIMER_ABSTIME) ? abs_to_v(k, rq)
                 : (int64_t)S.vtime + (int64_t)rq->tv_sec * 1000000000ll + rq->tv_nsec;
    block(&sleep_obj, dl);
    return 0;
}
int nanosleep(const struct timespec* rq, struct timespec* rm) {
    static auto r = real<int (*)(const struct timespec*, struct timespec*)>("nanosleep");
    if (!on()) return r(rq, rm);
    return clock_nanosleep(CLOCK_MONOTONIC, 0, rq, rm);
}
int usleep(useconds_t us) {
    struct timespec ts{(time_t)(us / 1000000), (long)(us % 1000000) * 1000};
    return nanosleep(&ts, nullptr);
}
pid_t gettid() { return on() ? (pid_t)vs::tid() : (pid_t)raw6(SYS_gettid, 0, 0, 0, 0, 0, 0); }
long syscall(long n, ...) {
    va_list ap; va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (on()) {
        if (n == SYS_gettid) return vs::tid();
        if (n == SYS_futex) {
            int op = (int)(b & FUTEX_CMD_MASK);
            if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
                sync_point();
                if (*(volatile int*)a != (int)c) { errno = EAGAIN; return -1; }
                int64_t dl = -1;
                if (d) {
                    auto* ts = (const struct timespec*)d;
                    if (op == FUTEX_WAIT) dl = (int64_t)S.vtime + ts->tv_sec * 1000000000ll + ts->tv_nsec;
                    else dl = abs_to_v((b & FUTEX_CLOCK_REALTIME) ? CLOCK_REALTIME : CLOCK_MONOTONIC, ts);
                }
                if (block((void*)a, dl)) { errno = ETIMEDOUT; return -1; }
                return 0;
            }
            if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
                int k = wake((void*)a, (int)c);
                sync_point();
                return k;
            }
        }
    }
    long r = raw6(n, a, b, c, d, e, f);
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}
// once and guards: 0 new, 1 running, 2 done
int pthread_once(pthread_once_t* o, void (*fn)(void)) {
    static auto r = real<int (*)(pthread_once_t*, void (*)(void))>("pthread_once");
    if (!on()) return r(o, fn);
    sync_point();
    volatile int* p = (volatile int*)o;
    for (;;) {
        if (*p == 2) return 0;
        if (*p == 0) {
            *p = 1;
            struct G { volatile int* p; bool ok = false; ~G() { *p = ok ? 2 : 0; wake((const void*)p, 1 << 30); } } g{p};
            fn();
            g.ok = true;
            return 0;
        }
        block((const void*)p, -1);
    }
}
int __cxa_guard_acquire(long long int* g) {
    unsigned char* b = (unsigned char*)g;
    if (!on()) { if (b[0]) return 0; b[1] = 1; return 1; }
    sync_point();
    for (;;) {
        if (b[0]) return 0;
        if (!b[1]) { b[1] = 1; return 1; }
        block(g, -1);
    }
}
void __cxa_guard_release(long long int* g) {
    unsigned char* b = (unsigned char*)g;
    b[1] = 0; b[0] = 1;
    if (on()) { wake(g, 1 << 30); sync_point(); }
}
void __cxa_guard_abort(long long int* g) {
    unsigned char* b = (unsigned char*)g;
    b[1] = 0;
    if (on()) { wake(g, 1 << 30); sync_point(); }
}

// ------------------------------------------------------------ instrumentation callbacks
static inline void hit() { if (__builtin_expect(--g_countdown <= 0, 0)) { if (on() && !g_quiet) resched(true); else g_countdown = on() ? 64 : INT64_MAX; } }
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
static inline void hitp(const void* p, bool w) { if (__builtin_expect(g_hunt, 0)) { if (on() && !g_quiet) hunt(p, w); } hit(); }
void __tsan_vptr_update(void**, void*) { hit(); }
void __tsan_vptr_read(void**) { hit(); }
void __tsan_read_range(void* p, unsigned long) { hitp(p, false); }
void __tsan_write_range(void* p, unsigned long) { hitp(p, true); }
#define MEM(n) \
    void __tsan_read##n(void* p) { hitp(p, false); } void __tsan_write##n(void* p) { hitp(p, true); } \
    void __tsan_unaligned_read##n(void* p) { hitp(p, false); } void __tsan_unaligned_write##n(void* p) { hitp(p, true); } \
    void __tsan_volatile_read##n(void* p) { hitp(p, false); } void __tsan_volatile_write##n(void* p) { hitp(p, true); } \
    void __tsan_unaligned_volatile_read##n(void* p) { hitp(p, false); } void __tsan_unaligned_volatile_write##n(void* p) { hitp(p, true); } \
    void __tsan_read##n##_pc(void* p, void*) { hitp(p, false); } void __tsan_write##n##_pc(void* p, void*) { hitp(p, true); }
MEM(1) MEM(2) MEM(4) MEM(8) MEM(16)
// atomics: a preemption is possible before each
static inline void ahit(const volatile void* p, bool w) { if (__builtin_expect(g_hunt, 0)) { if (on() && !g_quiet) hunt((const void*)p, w); } g_countdown -= 3; if (__builtin_expect(g_countdown <= 0, 0)) { if (on() && !g_quiet) resched(true); else g_countdown = on() ? 64 : INT64_MAX; } }
#define ATOM(n, T) \
    T __tsan_atomic##n##_load(const volatile T* p, int) { ahit(p, false); return __atomic_load_n(p, 5); } \
    void __tsan_atomic##n##_store(volatile T* p, T v, int) { ahit(p, true); __atomic_store_n(p, v, 5); } \
    T __tsan_atomic##n##_exchange(volatile T* p, T v, int) { ahit(p, true); return __atomic_exchange_n(p, v, 5); } \
    T __tsan_atomic##n##_fetch_add(volatile T* p, T v, int) { ahit(p, true); return __atomic_fetch_add(p, v, 5); } \
    T __tsan_atomic##n##_fetch_sub(volatile T* p, T v, int) { ahit(p, true); return __atomic_fetch_sub(p, v, 5); } \
    T __tsan_atomic##n##_fetch_and(volatile T* p, T v, int) { ahit(p, true); return __atomic_fetch_and(p, v, 5); } \
    T __tsan_atomic##n##_fetch_or(volatile T* p, T v, int) { ahit(p, true); return __atomic_fetch_or(p, v, 5); } \
    T __tsan_atomic##n##_fetch_xor(volatile T* p, T v, int) { ahit(p, true); return __atomic_fetch_xor(p, v, 5); } \
    T __tsan_atomic##n##_fetch_nand(volatile T* p, T v, int) { ahit(p, true); return __atomic_fetch_nand(p, v, 5); } \
    int __tsan_atomic##n##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) { ahit(p, true); return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); } \
    int __tsan_atomic##n##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) { ahit(p, true); return __atomic_compare_exchange_n(p, e, v, 1, 5, 5); }
ATOM(8, unsigned char) ATOM(16, unsigned short) ATOM(32, unsigned int) ATOM(64, unsigned long)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(5); }
void __tsan_atomic_signal_fence(int) {}
}
