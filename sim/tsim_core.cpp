#include "tsim.h"
#include "seams.h"
#include <pthread.h>
#include <semaphore.h>
#include <cerrno>
#include <csetjmp>
#include <cstring>
#include <map>
#include <memory>
#include <sys/mman.h>
#include <unistd.h>
using sim::violation; using sim::choose; using sim::stat; using sim::broken;

namespace tsim {
static const int MAXT = 8;
typedef uint32_t VC[MAXT];
struct Task {
    int id; std::string name; std::function<void()> body; pthread_t th; sem_t sem; jmp_buf out;
    enum { READY, BLOCKED, SLEEPING, DONE, DEAD } st = READY;
    const void *waits = nullptr; uint64_t wake = 0;
    uint64_t points = 0, kill_at = 0; bool kill_in_lock = false, die = false;
    int locks = 0; long prio = 0; int prot = PROT_READ;
    VC vc = {0};
};
struct Watch { uintptr_t a, b; bool race; };
struct Cell { int w = -1; uint32_t wc = 0; bool watomic = false; VC r = {0}; bool ratomic[MAXT] = {false}; };
static std::vector<std::unique_ptr<Task>> T;
static sem_t main_sem;
static thread_local Task *me;
static int cur = -1;
static bool running;
static std::vector<Watch> W_;
static bool globals_on, races_on;
static uint64_t steps_, switches_, gap, micros;
static const int PCT = 4;
static int style;
static bool stuck;
static bool stalls;
static long mp_fail, mp_n, mp_failed;
static int nopreempt; static uint64_t inrow;
static std::map<const void *, int> owner;              // lock -> task
static std::map<const void *, std::unique_ptr<VC>> sync_;
static std::map<uintptr_t, Cell> cells;
static uintptr_t pp0, pp1; static bool pp_per_task; static int pp_shared;
extern "C" char __start_hbdata, __stop_hbdata, __start_hbbss, __stop_hbbss;     // the data of the library (renamed by build.py)
static bool in_globals(uintptr_t a) { return (a >= (uintptr_t)&__start_hbdata && a < (uintptr_t)&__stop_hbdata) || (a >= (uintptr_t)&__start_hbbss && a < (uintptr_t)&__stop_hbbss); }

static void join_(VC a, const VC b) { for (int i = 0; i < MAXT; i++) if (b[i] > a[i]) a[i] = b[i]; }
static VC &sync_of(const void *p) { auto &u = sync_[p]; if (!u) { u.reset((VC *)calloc(1, sizeof(VC))); } return *u; }
static void acquire(const void *p) { join_(me->vc, sync_of(p)); }
static void release(const void *p) { join_(sync_of(p), me->vc); me->vc[me->id]++; }

static std::vector<uint64_t> changes; static long low;
static uint64_t next_gap() {
    if (style == PCT) { uint64_t best = 1000000000; for (auto c : changes) if (c > steps_ && c - steps_ < best) best = c - steps_; return best; }
    static const uint64_t g[] = {1, 1, 2, 3, 5, 8, 13, 30, 80, 200, 600, 2000, 6000};
    static const int lim[] = {3, 6, 9, 13};
    uint64_t c = choose(2 * lim[style] + 1, "run for");
    if (c == 0) return 1000000000;                        // not preempted
    return g[(c - 1) % lim[style]];
}
static Task *pick_next() {
    for (;;) {
        std::vector<Task *> c;
        uint64_t soonest = ~0ull;
        for (auto &t : T) {
            if (t->st == Task::READY) c.push_back(t.get());
            else if (t->st == Task::SLEEPING) { if (t->wake <= micros) c.push_back(t.get()); else if (t->wake < soonest) soonest = t->wake; }
            else if (t->st == Task::BLOCKED && !owner.count(t->waits)) c.push_back(t.get());
        }
        if (c.empty()) {
            if (soonest == ~0ull) return nullptr;
            uint64_t d = soonest - micros; micros = soonest; stat("sim.usleep_us", d);
            continue;
        }
        if (c.size() == 1) return c[0];
        if (style == PCT) { Task *b = c[0]; for (auto t : c) if (t->prio > b->prio) b = t; return b; }
        return c[choose(c.size(), "task")];
    }
}
static void hand_over(Task *t) {          // t runs next; the caller waits for its own semaphore afterwards
    cur = t ? t->id : -1;
    if (t) { t->st = Task::READY; sem_post(&t->sem); } else sem_post(&main_sem);
}
static void wait_turn(Task *t) {
    while (sem_wait(&t->sem) != 0) {}
    if (t->die) longjmp(t->out, 1);
}
static void reschedule() {                // me has set its own state
    Task *t = pick_next(), *self_ = me;
    if (t == self_) { self_->st = Task::READY; gap = next_gap(); return; }
    switches_++;
    if (!t) {
        bool live = false;
        for (auto &x : T) if (x->st == Task::BLOCKED || x->st == Task::SLEEPING) live = true;
        stuck = live;
    }
    gap = next_gap();
    hand_over(t);
    wait_turn(self_);
}
static void maybe_die() {
    Task *t = me;
    t->points++;
    if (t->kill_at && t->points >= t->kill_at && (t->locks == 0 || t->kill_in_lock)) {
        t->st = Task::DEAD; t->kill_at = 0;
        sim::log("task %s is killed%s", t->name.c_str(), t->locks ? " while holding the lock" : "");
        stat(t->locks ? "fault.task_killed_in_lock" : "fault.task_killed"); sim::nontrivial();
        t->die = true;
        longjmp(t->out, 1);
    }
}
void point() {
    if (!me || !running) return;
    sim::step(); steps_++;
    if (nopreempt) return;
    maybe_die();
    if (gap > 1 && ++inrow < 30000) { gap--; return; }    // a task that spins does not run for ever
    inrow = 0;
    if (style == PCT) me->prio = --low;
    if (stalls && choose(12, "stall?") == 11) {           // a slow task: it does not run again for a while of simulated time
        static const uint64_t d[] = {1000, 20000, 600000, 3000000};
        me->st = Task::SLEEPING; me->wake = micros + d[choose(4, "stalled for")];
        stat("fault.task_stalled"); sim::nontrivial();
    }
    reschedule();
}
static std::string what(uintptr_t w) {
    if (!in_globals(w)) return "memory that they share";
    char b[64]; bool bss = w >= (uintptr_t)&__start_hbbss && w < (uintptr_t)&__stop_hbbss;
    snprintf(b, sizeof b, "a variable of the library (%s+%lx)", bss ? "bss" : "data", (unsigned long)(w - (bss ? (uintptr_t)&__start_hbbss : (uintptr_t)&__start_hbdata)));
    return b;
}
static void race(uintptr_t a, size_t n, bool write, bool atomic) {
    for (uintptr_t w = a & ~7ull; w < a + n; w += 8) {
        Cell &c = cells[w];
        if (c.w >= 0 && c.w != me->id && me->vc[c.w] < c.wc && !(atomic && c.watomic)) violation("data-race", "two threads access %s without synchronisation, one of them writes it", what(w).c_str());
        if (write) {
            for (int i = 0; i < MAXT; i++) if (i != me->id && c.r[i] > me->vc[i] && !(atomic && c.ratomic[i])) violation("data-race", "a thread writes %s that another one reads without synchronisation", what(w).c_str());
            c.w = me->id; c.wc = me->vc[me->id]; c.watomic = atomic;
        } else { c.r[me->id] = me->vc[me->id]; c.ratomic[me->id] = atomic; }
    }
}
static void access(const void *p, size_t n, bool write, bool atomic) {
    if (!me || !running) return;
    uintptr_t a = (uintptr_t)p;
    if (write && a < pp1 && a + n > pp0) {
        int pr = pp_per_task ? me->prot : pp_shared;
        if (!(pr & PROT_WRITE)) violation("write-protected", "a write to the cache while it is write-protected%s: the process would be killed", pp_per_task ? " for this process" : "");
    }
    if (globals_on && in_globals(a)) {
        if (races_on) race(a, n, write, atomic);
        point();
        return;
    }
    for (auto &w : W_) if (a < w.b && a + n > w.a) { if (w.race) race(a, n, write, atomic); point(); return; }
    if (style == 3 && globals_on) point();
}
static void *thread_main(void *arg) {
    Task *t = (Task *)arg; me = t;
    if (!setjmp(t->out)) {
        wait_turn(t);
        t->body();
        t->st = Task::DONE;
    }
    me = t;
    for (auto it = owner.begin(); it != owner.end();) if (it->second == t->id && t->st == Task::DONE) it = owner.erase(it); else ++it;
    Task *n = nullptr;
    if (running) {
        n = pick_next();
        if (!n) { bool live = false; for (auto &x : T) if (x->st == Task::BLOCKED || x->st == Task::SLEEPING) live = true; stuck = live; }
        gap = next_gap();
        hand_over(n);
    }
    return nullptr;
}

static int s_lock(pthread_spinlock_t *l) {
    if (!me || !running) return __real_pthread_spin_lock(l);
    point();
    while (owner.count((const void *)l)) {
        if (owner[(const void *)l] == me->id) violation("deadlock", "a task locks a lock it holds already");
        me->st = Task::BLOCKED; me->waits = (const void *)l; stat("probe.waited_for_lock");
        reschedule();
    }
    me->waits = nullptr;
    owner[(const void *)l] = me->id; me->locks++;
    acquire((const void *)l);
    return 0;
}
static int s_unlock(pthread_spinlock_t *l) {
    if (!me || !running) return __real_pthread_spin_unlock(l);
    auto it = owner.find((const void *)l);
    if (it == owner.end() || it->second != me->id) violation("bad-unlock", "a task unlocks a lock it does not hold");
    release((const void *)l);
    owner.erase(it); me->locks--;
    point();
    return 0;
}
static int s_trylock(pthread_spinlock_t *l) {
    if (!me || !running) return __real_pthread_spin_trylock(l);
    point();
    if (owner.count((const void *)l)) return 16 /* EBUSY */;
    owner[(const void *)l] = me->id; me->locks++; acquire((const void *)l);
    return 0;
}
static int s_usleep(unsigned long us) {
    if (!me || !running) { micros += us; sim::step(); return 0; }
    me->st = Task::SLEEPING; me->wake = micros + us; sim::step(); steps_++;
    maybe_die();
    reschedule();
    return 0;
}
static int s_mprotect(void *a, size_t n, int p) {
    if (!me || !running || (uintptr_t)a + n <= pp0 || (uintptr_t)a >= pp1) return __real_mprotect(a, n, p);
    point();
    if (mp_fail > 0 && ++mp_n == mp_fail) { mp_failed++; stat("fault.mprotect_failed"); errno = ENOMEM; return -1; }
    if (pp_per_task) me->prot = p; else pp_shared = p;
    return 0;
}

void start(int scale) {
    T.clear(); W_.clear(); owner.clear(); sync_.clear(); cells.clear();
    running = globals_on = races_on = stuck = false; nopreempt = 0; inrow = 0; mp_fail = mp_n = mp_failed = 0; steps_ = switches_ = micros = 0; pp0 = pp1 = 0; cur = -1;
    sem_init(&main_sem, 0, 0);
    seams.spin_lock = s_lock; seams.spin_unlock = s_unlock; seams.spin_trylock = s_trylock; seams.usleep = s_usleep; seams.mprotect = s_mprotect;
    seams.yield = [](const char *) { point(); };
    style = (int)choose(8, "switching style");
    changes.clear(); low = 0;
    if (style >= 4) {                     // priorities with a few change points
        style = PCT;
        static const uint64_t range[] = {30, 100, 400, 2000};
        uint64_t n = 1 + choose(4, "changes"), r = range[choose(4, "range")] * scale;
        for (uint64_t i = 0; i < n; i++) changes.push_back(1 + choose(r, "change at"));
    }
    stalls = choose(2, "stalls");
}
int spawn(const char *name, std::function<void()> body) {
    if (T.size() >= MAXT) broken("too many tasks");
    T.emplace_back(new Task); Task *t = T.back().get();
    t->id = (int)T.size() - 1; t->name = name; t->body = body; t->vc[t->id] = 1;
    sem_init(&t->sem, 0, 0);
    return t->id;
}
void run() {
    running = true;
    for (auto &t : T) if (pthread_create(&t->th, nullptr, thread_main, t.get())) broken("cannot create a thread");
    if (style == PCT) for (auto &t : T) t->prio = 1 + (long)choose(1000, "priority");
    Task *f = pick_next();
    gap = next_gap();
    hand_over(f);
    while (sem_wait(&main_sem) != 0) {}
    running = false;
    for (auto &t : T) {
        if (t->st != Task::DONE && !(t->st == Task::DEAD)) { t->die = true; sem_post(&t->sem); }
        pthread_join(t->th, nullptr);
    }
    stat("sim.context_switches", switches_); stat("sim.scheduling_points", steps_);
    if (switches_) sim::nontrivial();
}
int self() { return me && running ? me->id : -1; }
void watch(const void *p, size_t n, bool) { W_.push_back({(uintptr_t)p, (uintptr_t)p + n, false}); }
void watch_race(const void *p, size_t n) { W_.push_back({(uintptr_t)p, (uintptr_t)p + n, true}); }
void watch_globals(bool races) { globals_on = true; races_on = races; }
void protect_per_task(void *p, size_t n) { pp0 = (uintptr_t)p; pp1 = pp0 + n; pp_per_task = true; pp_shared = PROT_READ; }
void protect_shared(void *p, size_t n) { pp0 = (uintptr_t)p; pp1 = pp0 + n; pp_per_task = false; pp_shared = PROT_READ; }
uint64_t clock() { return steps_; }
void kill_at(int task, uint64_t points, bool in_lock) { T[task]->kill_at = points; T[task]->kill_in_lock = in_lock; }
bool killed(int task) { return T[task]->st == Task::DEAD; }
bool any_stuck() { return stuck; }
bool lock_held_by_dead() { for (auto &o : owner) if (T[o.second]->st == Task::DEAD) return true; return false; }
static std::string data0, bss0;
void reset_library() {
    size_t d = &__stop_hbdata - &__start_hbdata, b = &__stop_hbbss - &__start_hbbss;
    if (data0.empty()) { data0.assign(&__start_hbdata, d); bss0.assign(&__start_hbbss, b); return; }
    std::copy(data0.begin(), data0.end(), &__start_hbdata); std::copy(bss0.begin(), bss0.end(), &__start_hbbss);
}
static struct ResetInit { ResetInit() { sim::on_reset(reset_library); } } reset_init_;
void fail_mprotect(long n) { mp_fail = n; }
long mprotect_failures() { return mp_failed; }
uint64_t switches() { return switches_; }

extern "C" {
void __tsan_init(void) {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit(void) {}
void __tsan_vptr_update(void **, void *) {}
void __tsan_vptr_read(void **) {}
#define RW(N) \
void __tsan_read##N(void *p) { access(p, N, false, false); } \
void __tsan_write##N(void *p) { access(p, N, true, false); } \
void __tsan_unaligned_read##N(void *p) { access(p, N, false, false); } \
void __tsan_unaligned_write##N(void *p) { access(p, N, true, false); } \
void __tsan_volatile_read##N(void *p) { access(p, N, false, false); } \
void __tsan_volatile_write##N(void *p) { access(p, N, true, false); } \
void __tsan_unaligned_volatile_read##N(void *p) { access(p, N, false, false); } \
void __tsan_unaligned_volatile_write##N(void *p) { access(p, N, true, false); } \
void __tsan_read##N##_pc(void *p, void *) { access(p, N, false, false); } \
void __tsan_write##N##_pc(void *p, void *) { access(p, N, true, false); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { if (n) access(p, n, false, false); }
void __tsan_write_range(void *p, size_t n) { if (n) access(p, n, true, false); }

static void at(const volatile void *p, size_t n, bool write) {
    if (!me || !running) return;
    access((const void *)p, n, write, true);
    acquire((const void *)p); release((const void *)p);
}
#define ATOM(B, Ty) \
Ty __tsan_atomic##B##_load(const volatile Ty *a, int) { at(a, B / 8, false); return *a; } \
void __tsan_atomic##B##_store(volatile Ty *a, Ty v, int) { at(a, B / 8, true); *a = v; } \
Ty __tsan_atomic##B##_exchange(volatile Ty *a, Ty v, int) { at(a, B / 8, true); Ty o = *a; *a = v; return o; } \
Ty __tsan_atomic##B##_fetch_add(volatile Ty *a, Ty v, int) { at(a, B / 8, true); Ty o = *a; *a = o + v; return o; } \
Ty __tsan_atomic##B##_fetch_sub(volatile Ty *a, Ty v, int) { at(a, B / 8, true); Ty o = *a; *a = o - v; return o; } \
Ty __tsan_atomic##B##_fetch_and(volatile Ty *a, Ty v, int) { at(a, B / 8, true); Ty o = *a; *a = o & v; return o; } \
Ty __tsan_atomic##B##_fetch_or(volatile Ty *a, Ty v, int) { at(a, B / 8, true); Ty o = *a; *a = o | v; return o; } \
Ty __tsan_atomic##B##_fetch_xor(volatile Ty *a, Ty v, int) { at(a, B / 8, true); Ty o = *a; *a = o ^ v; return o; } \
Ty __tsan_atomic##B##_fetch_nand(volatile Ty *a, Ty v, int) { at(a, B / 8, true); Ty o = *a; *a = ~(o & v); return o; } \
int __tsan_atomic##B##_compare_exchange_strong(volatile Ty *a, Ty *e, Ty v, int, int) { at(a, B / 8, true); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
int __tsan_atomic##B##_compare_exchange_weak(volatile Ty *a, Ty *e, Ty v, int, int) { at(a, B / 8, true); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
Ty __tsan_atomic##B##_compare_exchange_val(volatile Ty *a, Ty e, Ty v, int, int) { at(a, B / 8, true); Ty o = *a; if (o == e) *a = v; return o; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int) { point(); }
void __tsan_atomic_signal_fence(int) {}

// memory functions of libc: the library's calls are accesses too. Large ones are done in pieces, so that another task
// can see them half done.
void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
int __real_memcmp(const void *, const void *, size_t);
static bool watched(const void *p, size_t n) {
    uintptr_t a = (uintptr_t)p;
    if (a < pp1 && a + n > pp0) return true;
    if (globals_on && in_globals(a)) return true;
    for (auto &w : W_) if (a < w.b && a + n > w.a) return true;
    return false;
}
void *__wrap_memcpy(void *d, const void *s, size_t n) {
    if (me && running && n) {
        bool wd = watched(d, n), ws = watched(s, n);
        if (wd || ws) {
            for (size_t o = 0; o < n;) { size_t k = n - o > 512 ? 512 : n - o; if (ws) access((const char *)s + o, k, false, false); if (wd) access((char *)d + o, k, true, false); __real_memcpy((char *)d + o, (const char *)s + o, k); o += k; }
            return d;
        }
    }
    return __real_memcpy(d, s, n);
}
void *__wrap_memmove(void *d, const void *s, size_t n) {
    if (me && running && n) { if (watched(s, n)) access(s, n, false, false); if (watched(d, n)) access(d, n, true, false); }
    return __real_memmove(d, s, n);
}
void *__wrap_memset(void *d, int c, size_t n) {
    if (me && running && n && watched(d, n)) {
        for (size_t o = 0; o < n;) { size_t k = n - o > 512 ? 512 : n - o; access((char *)d + o, k, true, false); __real_memset((char *)d + o, c, k); o += k; }
        return d;
    }
    return __real_memset(d, c, n);
}
int __wrap_memcmp(const void *a, const void *b, size_t n) {
    if (me && running && n) { if (watched(a, n)) access(a, n, false, false); if (watched(b, n)) access(b, n, false, false); }
    return __real_memcmp(a, b, n);
}
int __real_vsnprintf(char *, size_t, const char *, va_list);
int __wrap_vsnprintf(char *d, size_t n, const char *f, va_list ap) { if (me && running && n && watched(d, n)) access(d, n, true, false); return __real_vsnprintf(d, n, f, ap); }
int __wrap_snprintf(char *d, size_t n, const char *f, ...) { if (me && running && n && watched(d, n)) access(d, n, true, false); va_list ap; va_start(ap, f); int r = __real_vsnprintf(d, n, f, ap); va_end(ap); return r; }
char *__real_strncpy(char *, const char *, size_t);
char *__wrap_strncpy(char *d, const char *s, size_t n) { if (me && running && n && watched(d, n)) access(d, n, true, false); return __real_strncpy(d, s, n); }
char *__real_strcpy(char *, const char *);
char *__wrap_strcpy(char *d, const char *s) { if (me && running && watched(d, 1)) access(d, strlen(s) + 1, true, false); return __real_strcpy(d, s); }
char *__real_strcat(char *, const char *);
char *__wrap_strcat(char *d, const char *s) { if (me && running && watched(d, 1)) access(d, strlen(d) + strlen(s) + 1, true, false); return __real_strcat(d, s); }
int __real_pthread_once(pthread_once_t *, void (*)(void));
int __wrap_pthread_once(pthread_once_t *o, void (*f)(void)) {
    if (!me || !running) return __real_pthread_once(o, f);
    nopreempt++; int r = __real_pthread_once(o, f); nopreempt--;
    acquire(o); release(o);
    return r;
}
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __wrap_pthread_mutex_lock(pthread_mutex_t *l) { return me && running ? s_lock((pthread_spinlock_t *)l) : __real_pthread_mutex_lock(l); }
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __wrap_pthread_mutex_unlock(pthread_mutex_t *l) { return me && running ? s_unlock((pthread_spinlock_t *)l) : __real_pthread_mutex_unlock(l); }
int __real_pthread_mutex_trylock(pthread_mutex_t *);
int __wrap_pthread_mutex_trylock(pthread_mutex_t *l) { return me && running ? s_trylock((pthread_spinlock_t *)l) : __real_pthread_mutex_trylock(l); }
}
}
