#include "vsched.h"

#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <cstdlib>
#include <map>
#include <new>
#include <string>
#include <unordered_map>
#include <vector>

namespace {

// ---------------------------------------------------------------------------
// real functions

template <typename F>
F real(const char* name) {
    return (F)dlsym(RTLD_NEXT, name);
}
#define REAL(name) \
    static auto real_##name = real<decltype(&::name)>(#name)

// ---------------------------------------------------------------------------
// result area shared with the parent process

struct shared_area {
    size_t used;
    size_t steps;
    size_t switches;
    int failed;
    char status[64];
    char info[4096];
    char trace[1 << 21];
};
shared_area* g_shared = nullptr;

// ---------------------------------------------------------------------------
// scheduler state (only touched by the thread that holds the baton)

enum class st { runnable, blocked, sleeping, finished };

struct thread {
    int id;
    st state = st::runnable;
    sem_t sem;
    const void* waiting = nullptr;  // object this thread is blocked on
    const char* what = "";
    int64_t wake = 0;       // virtual wake up time (ns)
    bool timed_out = false;
    bool signalled = false;
    uint64_t prio = 0;
    void* (*fn)(void*) = nullptr;
    void* arg = nullptr;
    pthread_t handle{};
};

struct lock_state {
    int writer = -1;
    int depth = 0;
    std::vector<int> readers;
};

bool g_on = false;
thread_local int t_id = -1;
std::vector<thread*>* g_threads = nullptr;
std::unordered_map<const void*, lock_state>* g_locks = nullptr;
int g_cur = 0;
int64_t g_now = 0;
uint64_t g_rng = 1, g_data_rng = 1;
int g_strategy = 0;   // 0 random, 1 pct, 2 mostly-run-to-block
unsigned g_stick = 0;
std::vector<size_t>* g_change = nullptr;
size_t g_max_steps = 400000;
int64_t g_max_time = 20LL * 1000 * 1000 * 1000;
int g_atomic_depth = 0;
uint64_t g_low = 0;

uint64_t next(uint64_t& s) {
    s ^= s << 13;
    s ^= s >> 7;
    s ^= s << 17;
    return s * 0x2545F4914F6CDD1DULL;
}
uint64_t mix(uint64_t x) {
    x += 0x9E3779B97F4A7C15ULL;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ULL;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBULL;
    return (x ^ (x >> 31)) | 1;
}

void alive(const void* p, const char* what);

[[noreturn]] void stop(const char* status, const std::string& info) {
    snprintf(g_shared->status, sizeof g_shared->status, "%s", status);
    snprintf(g_shared->info, sizeof g_shared->info, "%s", info.c_str());
    _exit(9);
}

std::string describe() {
    std::string s;
    for (auto* t : *g_threads) {
        char b[160];
        const char* n = t->state == st::runnable   ? "runnable"
                        : t->state == st::blocked  ? "blocked in"
                        : t->state == st::sleeping ? "sleeping in"
                                                   : "finished";
        if (t->state == st::finished) continue;
        snprintf(b, sizeof b, "[thread %d %s %s] ", t->id, n, t->what);
        s += b;
    }
    return s;
}

int pick() {
    auto& th = *g_threads;
    for (;;) {
        std::vector<int> can;
        std::vector<int> sleepers;
        for (auto* t : th) {
            if (t->state == st::runnable) can.push_back(t->id);
            if (t->state == st::sleeping) sleepers.push_back(t->id);
        }
        // time may pass while others run
        if (!sleepers.empty() && !can.empty() && next(g_rng) % 64 == 0) {
            int s = sleepers[next(g_rng) % sleepers.size()];
            g_now = std::max(g_now, th[s]->wake);
            th[s]->state = st::runnable;
            th[s]->timed_out = true;
            continue;
        }
        if (can.empty()) {
            if (sleepers.empty()) stop("deadlock", describe());
            int64_t w = INT64_MAX;
            for (int s : sleepers) w = std::min(w, th[s]->wake);
            if (w > g_now) g_now = w;
            if (g_now > g_max_time) stop("hang", "virtual time limit: " + describe());
            for (int s : sleepers)
                if (th[s]->wake <= g_now) {
                    th[s]->state = st::runnable;
                    th[s]->timed_out = true;
                }
            continue;
        }
        if (can.size() == 1) return can[0];
        bool cur_ok = th[g_cur]->state == st::runnable;
        switch (g_strategy) {
            case 1: {  // priorities with random change points
                if (cur_ok && std::binary_search(g_change->begin(), g_change->end(), g_shared->steps))
                    th[g_cur]->prio = g_low--;
                int best = can[0];
                for (int c : can)
                    if (th[c]->prio > th[best]->prio) best = c;
                return best;
            }
            default:
                if (cur_ok && next(g_rng) % 16 < g_stick) return g_cur;
                return can[next(g_rng) % can.size()];
        }
    }
}

void hand_over(int to) {
    int me = g_cur;
    if (to == me) return;
    ++g_shared->switches;
    g_cur = to;
    thread* mine = (*g_threads)[me];
    sem_post(&(*g_threads)[to]->sem);
    while (sem_wait(&mine->sem) != 0) {
    }
}

void step() {
    if (++g_shared->steps > g_max_steps) stop("hang", "step limit: " + describe());
}

/// scheduling point of a thread that stays runnable
void point() {
    if (!g_on || t_id < 0 || g_atomic_depth > 0) return;
    step();
    hand_over(pick());
}

/// blocks until cond() holds
template <typename F>
void block_until(const void* obj, const char* what, F cond) {
    thread* me = (*g_threads)[t_id];
    while (!cond()) {
        me->state = st::blocked;
        me->waiting = obj;
        me->what = what;
        step();
        hand_over(pick());
        me->waiting = nullptr;
    }
}

void wake_all(const void* obj) {
    for (auto* t : *g_threads)
        if (t->state == st::blocked && t->waiting == obj) t->state = st::runnable;
}

bool managed() { return g_on && t_id >= 0; }

// memory that was freed is filled with 0xDB, and not used again
char *g_arena = nullptr, *g_arena_next = nullptr, *g_arena_end = nullptr;

void alive(const void* p, const char* what) {
    if (managed() && p >= g_arena && p < g_arena_next && *(const unsigned long*)((size_t)p & ~7ul) == 0xDBDBDBDBDBDBDBDBul)
        stop("freed", std::string(what) + " of memory that was freed");
}

bool recursive(pthread_mutex_t* l) { return (l->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }

/// scheduling point at reference counts: frequent, rarely interesting
void rare() {
    if (!g_on || t_id < 0 || g_atomic_depth > 0) return;
    if (next(g_rng) % 4 == 0) point();
}

void* trampoline(void* p) {
    thread* me = (thread*)p;
    t_id = me->id;
    while (sem_wait(&me->sem) != 0) {
    }
    void* r = me->fn(me->arg);
    // thread end
    me->state = st::finished;
    wake_all(me);
    int save = t_id;
    step();
    int to = pick();
    g_cur = to;
    t_id = -1;
    (void)save;
    sem_post(&(*g_threads)[to]->sem);
    return r;
}

int64_t to_ns(const struct timespec* t) { return (int64_t)t->tv_sec * 1000000000LL + t->tv_nsec; }

void vsleep(int64_t ns, const char* what) {
    thread* me = (*g_threads)[t_id];
    me->wake = g_now + std::max<int64_t>(ns, 1);
    me->state = st::sleeping;
    me->what = what;
    step();
    int to = pick();
    hand_over(to);
}

}  // namespace

// ---------------------------------------------------------------------------
// interposed functions

extern "C" {

int pthread_create(pthread_t* h, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
    REAL(pthread_create);
    if (!managed()) return real_pthread_create(h, a, fn, arg);
    auto* t = new thread;
    t->id = (int)g_threads->size();
    sem_init(&t->sem, 0, 0);
    t->fn = fn;
    t->arg = arg;
    t->prio = (1ULL << 40) + (next(g_rng) >> 30);
    g_threads->push_back(t);
    int rc = real_pthread_create(h, a, trampoline, t);
    t->handle = *h;
    point();
    return rc;
}

int pthread_join(pthread_t h, void** r) {
    REAL(pthread_join);
    if (!managed()) return real_pthread_join(h, r);
    thread* t = nullptr;
    for (auto* x : *g_threads)
        if (x->id > 0 && pthread_equal(x->handle, h)) t = x;
    if (t) {
        point();
        block_until(t, "join", [&] { return t->state == st::finished; });
    }
    return real_pthread_join(h, r);
}

int pthread_detach(pthread_t h) {
    REAL(pthread_detach);
    return real_pthread_detach(h);
}

int pthread_rwlock_wrlock(pthread_rwlock_t* l) {
    REAL(pthread_rwlock_wrlock);
    if (!managed()) return real_pthread_rwlock_wrlock(l);
    alive(l, "lock");
    point();
    if ((*g_locks)[l].writer == t_id) return EDEADLK;
    block_until(l, "write lock", [&] {
        auto& s = (*g_locks)[l];
        return s.writer < 0 && s.readers.empty();
    });
    (*g_locks)[l].writer = t_id;
    return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) {
    REAL(pthread_rwlock_trywrlock);
    if (!managed()) return real_pthread_rwlock_trywrlock(l);
    alive(l, "lock");
    point();
    auto& s = (*g_locks)[l];
    if (s.writer >= 0 || !s.readers.empty()) return EBUSY;
    s.writer = t_id;
    return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l) {
    REAL(pthread_rwlock_rdlock);
    if (!managed()) return real_pthread_rwlock_rdlock(l);
    alive(l, "lock");
    point();
    if ((*g_locks)[l].writer == t_id) return EDEADLK;
    block_until(l, "read lock", [&] { return (*g_locks)[l].writer < 0; });
    (*g_locks)[l].readers.push_back(t_id);
    return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) {
    REAL(pthread_rwlock_tryrdlock);
    if (!managed()) return real_pthread_rwlock_tryrdlock(l);
    alive(l, "lock");
    point();
    auto& s = (*g_locks)[l];
    if (s.writer >= 0) return EBUSY;
    s.readers.push_back(t_id);
    return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
    REAL(pthread_rwlock_unlock);
    if (!managed()) return real_pthread_rwlock_unlock(l);
    alive(l, "lock");
    auto& s = (*g_locks)[l];
    if (s.writer == t_id)
        s.writer = -1;
    else {
        auto it = std::find(s.readers.begin(), s.readers.end(), t_id);
        if (it != s.readers.end()) s.readers.erase(it);
    }
    wake_all(l);
    point();
    return 0;
}

int pthread_mutex_lock(pthread_mutex_t* l) {
    REAL(pthread_mutex_lock);
    if (!managed()) return real_pthread_mutex_lock(l);
    alive(l, "lock");
    point();
    if ((*g_locks)[l].writer == t_id && recursive(l)) {
        ++(*g_locks)[l].depth;
        return 0;
    }
    block_until(l, "mutex", [&] { return (*g_locks)[l].writer < 0; });
    (*g_locks)[l].writer = t_id;
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* l) {
    REAL(pthread_mutex_trylock);
    if (!managed()) return real_pthread_mutex_trylock(l);
    alive(l, "lock");
    point();
    auto& s = (*g_locks)[l];
    if (s.writer >= 0) return EBUSY;
    s.writer = t_id;
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* l) {
    REAL(pthread_mutex_unlock);
    if (!managed()) return real_pthread_mutex_unlock(l);
    alive(l, "lock");
    if ((*g_locks)[l].depth > 0) {
        --(*g_locks)[l].depth;
        return 0;
    }
    (*g_locks)[l].writer = -1;
    wake_all(l);
    point();
    return 0;
}

static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, int64_t timeout_ns) {
    thread* me = (*g_threads)[t_id];
    (*g_locks)[m].writer = -1;
    wake_all(m);
    me->timed_out = false;
    me->signalled = false;
    me->waiting = c;
    me->what = "condition";
    if (timeout_ns >= 0) {
        me->state = st::sleeping;
        me->wake = g_now + std::max<int64_t>(1, timeout_ns);
    } else {
        me->state = st::blocked;
    }
    step();
    hand_over(pick());
    me->waiting = nullptr;
    bool timed_out = timeout_ns >= 0 && !me->signalled;
    block_until(m, "mutex", [&] { return (*g_locks)[m].writer < 0; });
    (*g_locks)[m].writer = t_id;
    return timed_out ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    REAL(pthread_cond_wait);
    if (!managed()) return real_pthread_cond_wait(c, m);
    return cond_wait(c, m, -1);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) {
    REAL(pthread_cond_timedwait);
    if (!managed()) return real_pthread_cond_timedwait(c, m, t);
    struct timespec n;
    clock_gettime(CLOCK_REALTIME, &n);
    return cond_wait(c, m, std::max<int64_t>(0, to_ns(t) - to_ns(&n)));
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) {
    if (!managed()) {
        static auto r = (int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*))dlsym(
            RTLD_NEXT, "pthread_cond_clockwait");
        return r(c, m, k, t);
    }
    struct timespec n;
    clock_gettime(k, &n);
    return cond_wait(c, m, std::max<int64_t>(0, to_ns(t) - to_ns(&n)));
}
int pthread_cond_signal(pthread_cond_t* c) {
    REAL(pthread_cond_signal);
    if (!managed()) return real_pthread_cond_signal(c);
    std::vector<thread*> w;
    for (auto* t : *g_threads)
        if (t->waiting == c && (t->state == st::blocked || t->state == st::sleeping)) w.push_back(t);
    if (!w.empty()) {
        auto* t = w[next(g_rng) % w.size()];
        t->state = st::runnable;
        t->signalled = true;
    }
    point();
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
    REAL(pthread_cond_broadcast);
    if (!managed()) return real_pthread_cond_broadcast(c);
    for (auto* t : *g_threads)
        if (t->waiting == c && (t->state == st::blocked || t->state == st::sleeping)) {
            t->state = st::runnable;
            t->signalled = true;
        }
    point();
    return 0;
}

int nanosleep(const struct timespec* t, struct timespec* rem) {
    REAL(nanosleep);
    if (!managed()) return real_nanosleep(t, rem);
    vsleep(to_ns(t), "sleep");
    return 0;
}
int clock_nanosleep(clockid_t k, int flags, const struct timespec* t, struct timespec* rem) {
    REAL(clock_nanosleep);
    if (!managed()) return real_clock_nanosleep(k, flags, t, rem);
    int64_t d = to_ns(t);
    if (flags & TIMER_ABSTIME) {
        struct timespec n;
        clock_gettime(k, &n);
        d -= to_ns(&n);
    }
    vsleep(d, "sleep");
    return 0;
}
int clock_gettime(clockid_t k, struct timespec* t) {
    if (!managed()) return (int)syscall(SYS_clock_gettime, k, t);
    static const int64_t base = 1700000000LL * 1000000000LL;
    g_now += 1000;   // looking at the clock takes time
    int64_t v = base + g_now;
    t->tv_sec = v / 1000000000LL;
    t->tv_nsec = v % 1000000000LL;
    return 0;
}
int usleep(useconds_t u) {
    REAL(usleep);
    if (!managed()) return real_usleep(u);
    vsleep((int64_t)u * 1000, "sleep");
    return 0;
}
int sched_yield() {
    REAL(sched_yield);
    if (!managed()) return real_sched_yield();
    vsleep(1, "yield");
    return 0;
}

// ---------------------------------------------------------------------------
// callbacks of -fsanitize=thread instrumentation

void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void**, void*) {}
void __tsan_vptr_read(void** p) { alive(p, "virtual call"); }
void __tsan_read_range(void*, unsigned long) {}
void __tsan_write_range(void*, unsigned long) {}
void __tsan_read1(void* p) {
    point();
    alive(p, "read");
}   // flags: possible race points
void __tsan_write1(void* p) {
    point();
    alive(p, "write");
}
#define PLAIN(n)                          \
    void __tsan_read##n(void* p) { alive(p, "read"); }    \
    void __tsan_write##n(void* p) { alive(p, "write"); }  \
    void __tsan_unaligned_read##n(void*) {} \
    void __tsan_unaligned_write##n(void*) {}
PLAIN(2)
PLAIN(4)
PLAIN(16)
void __tsan_unaligned_read8(void*) {}
void __tsan_unaligned_write8(void*) {}
void __tsan_read8(void* p) { alive(p, "read"); }
void __tsan_write8(void* p) { alive(p, "write"); }
#define VOLATILE(n)                            \
    void __tsan_volatile_read##n(void*) {}     \
    void __tsan_volatile_write##n(void*) {}    \
    void __tsan_unaligned_volatile_read##n(void*) {} \
    void __tsan_unaligned_volatile_write##n(void*) {}
VOLATILE(1)
VOLATILE(2)
VOLATILE(4)
VOLATILE(8)
VOLATILE(16)
#define ATOMICS(bits, T, point)                                                                        \
    T __tsan_atomic##bits##_load(const volatile T* a, int) { point(); return __atomic_load_n(a, 5); } \
    void __tsan_atomic##bits##_store(volatile T* a, T v, int) { point(); __atomic_store_n(a, v, 5); }  \
    T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) { point(); return __atomic_exchange_n(a, v, 5); } \
    T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) { point(); return __atomic_fetch_add(a, v, 5); } \
    T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) { point(); return __atomic_fetch_sub(a, v, 5); } \
    T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) { point(); return __atomic_fetch_and(a, v, 5); } \
    T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) { point(); return __atomic_fetch_or(a, v, 5); }   \
    T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int) { point(); return __atomic_fetch_xor(a, v, 5); } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) {     \
        point();                                                                                \
        return __atomic_compare_exchange_n(a, c, v, 0, 5, 5);                                   \
    }                                                                                           \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) {       \
        point();                                                                                \
        return __atomic_compare_exchange_n(a, c, v, 0, 5, 5);                                   \
    }                                                                                           \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int, int) {           \
        point();                                                                                \
        __atomic_compare_exchange_n(a, &c, v, 0, 5, 5);                                         \
        return c;                                                                               \
    }
ATOMICS(8, unsigned char, point)
ATOMICS(16, unsigned short, point)
ATOMICS(32, unsigned int, rare)
ATOMICS(64, unsigned long, point)
void __tsan_atomic_thread_fence(int) { point(); }
void __tsan_atomic_signal_fence(int) {}

}  // extern "C"

// ---------------------------------------------------------------------------
// memory that was freed is filled with a recognisable pattern and (in managed
// executions) never reused, so that a use after the end of life is visible

static bool g_quarantine = false;
void* operator new(size_t n) {
    if (g_quarantine && n < (1 << 20)) {
        const size_t room = (n + 31) & ~15ul;
        char* p = __atomic_fetch_add(&g_arena_next, room, __ATOMIC_SEQ_CST);
        if (p + room <= g_arena_end) {
            *(size_t*)p = n;
            return p + 16;
        }
        __atomic_fetch_sub(&g_arena_next, room, __ATOMIC_SEQ_CST);
    }
    void* p = malloc(n + 16);
    if (!p) abort();
    *(size_t*)p = n;
    return (char*)p + 16;
}
void operator delete(void* p) noexcept {
    if (!p) return;
    char* b = (char*)p - 16;
    if (p >= g_arena && p < g_arena_end) {
        memset(p, 0xDB, *(size_t*)b);
        return;
    }
    free(b);
}
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void* operator new[](size_t n) { return operator new(n); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }

// ---------------------------------------------------------------------------
// harness interface

namespace vs {

bool active() { return managed(); }
int tid() { return t_id; }
void yield() { point(); }
int64_t now_ms() { return g_now / 1000000; }

atomic_section::atomic_section() { ++g_atomic_depth; }
atomic_section::~atomic_section() { --g_atomic_depth; }

uint32_t rnd(uint32_t n) { return (uint32_t)((next(g_data_rng) >> 33) % n); }

void ev(const char* fmt, ...) {
    if (!g_shared) return;
    va_list ap;
    va_start(ap, fmt);
    size_t room = sizeof g_shared->trace - g_shared->used;
    if (room < 4096) stop("toolong", "trace buffer full");
    char* p = g_shared->trace + g_shared->used;
    if (g_shared->used) {
        *p++ = ',';
        ++g_shared->used;
        --room;
    }
    int n = vsnprintf(p, room, fmt, ap);
    va_end(ap);
    g_shared->used += (size_t)n;
}

void fail(const char* fmt, ...) {
    if (g_shared->failed) return;
    g_shared->failed = 1;
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(g_shared->info, sizeof g_shared->info, fmt, ap);
    va_end(ap);
    snprintf(g_shared->status, sizeof g_shared->status, "failed");
}

static std::map<std::string, std::function<void(uint64_t)>>& registry() {
    static std::map<std::string, std::function<void(uint64_t)>> r;
    return r;
}
scenario::scenario(const char* name, std::function<void(uint64_t)> fn) { registry()[name] = fn; }

static void child(const std::function<void(uint64_t)>& fn, uint64_t seed, const char* strategy) {
    int null = open("/dev/null", O_WRONLY);
    dup2(null, 1);
    dup2(null, 2);
    const size_t room = 8ul << 30;
    void* arena = mmap(nullptr, room, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (arena != MAP_FAILED) {
        g_arena = g_arena_next = (char*)arena;
        g_arena_end = g_arena + room;
        g_quarantine = true;
    }
    g_threads = new std::vector<thread*>;
    g_locks = new std::unordered_map<const void*, lock_state>;
    g_change = new std::vector<size_t>;
    g_rng = mix(seed * 2 + 1);
    g_data_rng = mix(seed * 2 + 77777);
    uint64_t k = mix(seed) >> 8;
    g_strategy = (k % 3 == 0) ? 1 : 0;
    if (strategy && *strategy) g_strategy = atoi(strategy);
    static const unsigned sticks[] = {0, 4, 8, 12, 14, 15};
    g_stick = sticks[(k >> 8) % 6];
    if (g_strategy == 1) {
        size_t d = (k >> 16) % 5;
        static const size_t spans[] = {40, 120, 400, 1500};
        size_t span = spans[(k >> 24) % 4];
        for (size_t i = 0; i < d; ++i) g_change->push_back(next(g_rng) % span);
        std::sort(g_change->begin(), g_change->end());
        g_low = 1 << 20;
    }
    auto* t = new thread;
    t->id = 0;
    sem_init(&t->sem, 0, 0);
    t->prio = (1ULL << 40) + (next(g_rng) >> 30);
    g_threads->push_back(t);
    t_id = 0;
    g_cur = 0;
    g_on = true;
    try {
        fn(seed);
    } catch (std::exception& ex) {
        stop("exception", std::string("uncaught exception: ") + ex.what());
    } catch (...) {
        stop("exception", "uncaught exception");
    }
    g_on = false;
    if (!g_shared->failed) snprintf(g_shared->status, sizeof g_shared->status, "ok");
    _exit(0);
}

int main(int argc, char** argv) {
    // addresses are part of the schedule (containers ordered by pointers)
    int pers = personality(0xffffffff);
    if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("VS_REEXEC")) {
        setenv("VS_REEXEC", "1", 1);
        if (personality((unsigned long)pers | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    std::string name, out = "/dev/stdout", strategy;
    uint64_t first = 1, count = 1;
    int limit = 60;
    double budget = 0;
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i];
        if (a == "--scenario") name = argv[i + 1];
        if (a == "--first") first = strtoull(argv[i + 1], nullptr, 10);
        if (a == "--count") count = strtoull(argv[i + 1], nullptr, 10);
        if (a == "--out") out = argv[i + 1];
        if (a == "--strategy") strategy = argv[i + 1];
        if (a == "--limit") limit = atoi(argv[i + 1]);
        if (a == "--budget") budget = atof(argv[i + 1]);
    }
    auto it = registry().find(name);
    if (it == registry().end()) {
        fprintf(stderr, "no scenario %s\n", name.c_str());
        return 2;
    }
    FILE* f = fopen(out.c_str(), "w");
    if (!f) return 2;
    g_shared = (shared_area*)mmap(nullptr, sizeof(shared_area), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    time_t t0 = time(nullptr);
    for (uint64_t s = first; s < first + count; ++s) {
        if (budget > 0 && difftime(time(nullptr), t0) > budget) break;
        g_shared->used = g_shared->steps = g_shared->switches = 0;
        g_shared->failed = 0;
        g_shared->status[0] = g_shared->info[0] = 0;
        fflush(f);
        pid_t p = fork();
        if (p == 0) {
            alarm((unsigned)limit);
            child(it->second, s, strategy.c_str());
        }
        int ws = 0;
        waitpid(p, &ws, 0);
        std::string status = g_shared->status;
        std::string info = g_shared->info;
        if (WIFSIGNALED(ws)) {
            status = WTERMSIG(ws) == SIGALRM ? "timeout" : "crash";
            info = std::string("killed by signal ") + std::to_string(WTERMSIG(ws)) + " " + strsignal(WTERMSIG(ws));
        } else if (status.empty()) {
            status = "exit";
            info = "process exited with code " + std::to_string(WEXITSTATUS(ws));
        }
        for (auto& c : info)
            if (c == '"' || c == '\\' || (unsigned char)c < 32) c = '\'';
        fprintf(f, "{\"seed\":%llu,\"status\":\"%s\",\"info\":\"%s\",\"steps\":%zu,\"switches\":%zu,\"trace\":[",
                (unsigned long long)s, status.c_str(), info.c_str(), g_shared->steps, g_shared->switches);
        fwrite(g_shared->trace, 1, g_shared->used, f);
        fprintf(f, "]}\n");
    }
    fclose(f);
    return 0;
}

}  // namespace vs
