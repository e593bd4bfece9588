// Runtime behind -fsanitize=thread instrumentation, in place of ThreadSanitizer's own:
//  - every pthread mutex, once, condition, thread, C++ guard and future operation is a scheduling point of a cooperative
//    scheduler (real threads, one of which holds the baton), so that a driver can enumerate all interleavings;
//  - every instrumented memory access is checked against the happens-before order (vector clocks): in a program without
//    data races the order of the synchronisation operations determines the behaviour.
// This file is compiled without instrumentation and uses nothing but C, so that no inline function of the code under test
// is taken from here.
#include "sched.hpp"

#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <malloc.h>
#include <sys/mman.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>

extern "C" char __executable_start, etext;

namespace {
inline void zero(void* p, size_t n) { asm volatile("rep stosb" : "+D"(p), "+c"(n) : "a"(0) : "memory"); } // (not the recorded memset)
constexpr int MAXT = 8;
struct VC
{
    uint32_t c[MAXT];
};
inline void join(VC& a, const VC& b)
{
    for (int i = 0; i < MAXT; i++)
    {
        if (b.c[i] > a.c[i]) { a.c[i] = b.c[i]; }
    }
}
enum State
{
    UNUSED,
    RUNNABLE,
    BLOCKED,
    DONE
};
struct Thread
{
    State state;
    const void* on; // what a blocked thread waits for
    bool timed;     // the wait may end by itself
    bool timedOut;
    sem_t baton;
    VC vc;
    VC last; // when it ended
    uintptr_t lo, hi;
    pthread_t handle;
    bool joined; // the place may be taken again
    void* (*fn)(void*);
    void* arg;
};
Thread th[MAXT];
int threads = 0;
int created = 0;
int cur = 0;
bool active = false;
bool inside = false; // within the runtime: nothing is recorded
thread_local int self = -1;
sched::Options opt;
int preempted = 0;
sched::Counts cnt;
char pathText[256];
int pathLen = 0;

// ---------------------------------------------------------------- tables
struct Sync
{
    uintptr_t key;
    VC vc;
    int owner; // mutex: holder + 1; once and guard: 1 running, 2 done
    int depth;
};
constexpr size_t SYNCS = 1 << 16;
Sync* syncs = nullptr;
Sync& sync(const void* p)
{
    const auto key = reinterpret_cast<uintptr_t>(p);
    size_t i = (((key >> 9) * 0x9E3779B97F4A7C15ull >> 48) + (key >> 3 & 63)) & (SYNCS - 1); // (neighbours stay together)
    while (syncs[i].key != 0 && syncs[i].key != key) { i = (i + 1) & (SYNCS - 1); }
    if (syncs[i].key == 0) { syncs[i].key = key; }
    return syncs[i];
}
// What is known about every eight bytes: the last write and read of each thread. Pages of them are taken as they are needed.
struct Cell
{
    uint32_t w[MAXT], r[MAXT];
    uint8_t wm[MAXT], rm[MAXT];
    uint32_t wpc[MAXT], rpc[MAXT]; // from the start of the program
};
constexpr unsigned PAGE = 64; // cells
constexpr size_t PAGES = 1 << 15, SLOTS = 1 << 17;
struct Slot
{
    uintptr_t key;
    Cell* page;
};
Slot* slots = nullptr;
Cell* arena = nullptr;
size_t pagesUsed = 0;
Cell* cellPage(uintptr_t g, bool make)
{
    const uintptr_t key = g / PAGE + 1;
    size_t i = key * 0x9E3779B97F4A7C15ull >> 47;
    while (slots[i].key != 0 && slots[i].key != key) { i = (i + 1) & (SLOTS - 1); }
    if (slots[i].key == 0)
    {
        if (!make) { return nullptr; }
        if (pagesUsed == PAGES)
        {
            cnt.unchecked++;
            return nullptr;
        }
        slots[i].key = key;
        slots[i].page = arena + PAGE * pagesUsed++;
    }
    return slots[i].page;
}
uint32_t offset(uintptr_t pc) { return static_cast<uint32_t>(pc - reinterpret_cast<uintptr_t>(&__executable_start)); }
uintptr_t pcOf(uint32_t o) { return o + reinterpret_cast<uintptr_t>(&__executable_start); }

[[noreturn]] void fatal(const char* key, const char* f, ...)
{
    static char msg[4096];
    va_list a;
    va_start(a, f);
    vsnprintf(msg, sizeof msg, f, a);
    va_end(a);
    inside = true;
    active = false;
    opt.fatal(key, msg);
    _exit(99);
}
void nameOf(uintptr_t pc, char* out, size_t n)
{
    Dl_info d;
    if (dladdr(reinterpret_cast<void*>(pc), &d) != 0 && d.dli_sname != nullptr)
    {
        int st = 0;
        char* dm = abi::__cxa_demangle(d.dli_sname, nullptr, nullptr, &st);
        snprintf(out, n, "%s", st == 0 && dm ? dm : d.dli_sname);
        if (char* b = strstr(out, "[abi:")) { *b = 0; }
        free(dm);
    }
    else { snprintf(out, n, "pc %#lx", static_cast<unsigned long>(pc - reinterpret_cast<uintptr_t>(&__executable_start))); }
}
[[noreturn]] void race(uintptr_t addr, bool w1, uintptr_t pc1, int t1, bool w2, uintptr_t pc2, int t2)
{
    inside = true;
    static char a[1500], b[1500];
    nameOf(pc1, a, sizeof a);
    nameOf(pc2, b, sizeof b);
    fatal("race", "data race on %#lx: %s by thread %d in %s, and %s by thread %d in %s (schedule %s)", static_cast<unsigned long>(addr), w1 ? "write" : "read", t1, a, w2 ? "write" : "read", t2, b,
          pathText);
}
inline bool on() { return active && !inside && self == cur && self >= 0; }

// Large blocks (buffers) that only one thread after the other uses need no cells. When two use one without an order between them
// it is followed in cells from then on: what was before is forgotten, so that no race is reported that is none.
struct Block
{
    uintptr_t lo, hi;
    int owner;
    uint32_t last; // when the owner used it last
};
constexpr int BLOCKS = 32;
constexpr size_t LARGE = 16384;
Block blocks[BLOCKS];
int blockCount = 0;
bool exclusive(uintptr_t addr, size_t n)
{
    for (int i = 0; i < blockCount; i++)
    {
        Block& b = blocks[i];
        if (addr < b.lo || addr + n > b.hi) { continue; }
        if (b.owner != self && th[self].vc.c[b.owner] < b.last)
        {
            b = blocks[--blockCount];
            return false;
        }
        b.owner = self;
        b.last = th[self].vc.c[self];
        return true;
    }
    return false;
}
void blockGone(uintptr_t p)
{
    for (int i = 0; i < blockCount; i++)
    {
        if (blocks[i].lo == p)
        {
            blocks[i] = blocks[--blockCount];
            return;
        }
    }
}
void access(uintptr_t addr, size_t n, bool write, uintptr_t pc)
{
    if (!on() || n == 0) { return; }
    Thread& me = th[self];
    if (addr >= me.lo && addr < me.hi) { return; }
    cnt.accesses++;
    if (!opt.races || exclusive(addr, n)) { return; }
    const uintptr_t end = addr + n;
    const uint32_t now = me.vc.c[self];
    for (uintptr_t g = addr >> 3; g <= (end - 1) >> 3;)
    {
        Cell* page = cellPage(g, true);
        if (page == nullptr) { return; }
        do {
            const uintptr_t b = g << 3;
            const unsigned from = addr > b ? static_cast<unsigned>(addr - b) : 0, to = end < b + 8 ? static_cast<unsigned>(end - b) : 8;
            const auto mask = static_cast<uint8_t>((0xFFu << from) & (0xFFu >> (8 - to)));
            Cell* c = page + g % PAGE;
            if (write ? c->w[self] == now && (c->wm[self] & mask) == mask : c->r[self] == now && (c->rm[self] & mask) == mask) { continue; } // nothing new
            for (int u = 0; u < threads; u++)
            {
                if (u == self) { continue; }
                if ((c->wm[u] & mask) != 0 && c->w[u] > me.vc.c[u]) { race(addr, write, pc, self, true, pcOf(c->wpc[u]), u); }
                if (write && (c->rm[u] & mask) != 0 && c->r[u] > me.vc.c[u]) { race(addr, true, pc, self, false, pcOf(c->rpc[u]), u); }
            }
            if (write)
            {
                c->wm[self] = c->w[self] == now ? static_cast<uint8_t>(c->wm[self] | mask) : mask;
                c->w[self] = now;
                c->wpc[self] = offset(pc);
            }
            else
            {
                c->rm[self] = c->r[self] == now ? static_cast<uint8_t>(c->rm[self] | mask) : mask;
                c->r[self] = now;
                c->rpc[self] = offset(pc);
            }
        } while (++g <= (end - 1) >> 3 && g % PAGE != 0);
    }
}
// Giving a block back is a write to all of it; only what has been used of it matters, for it is forgotten next.
void gone(uintptr_t addr, size_t n, uintptr_t pc)
{
    if (n == 0 || !opt.races) { return; }
    cnt.accesses++;
    const Thread& me = th[self];
    const uintptr_t last = (addr + n - 1) >> 3;
    for (uintptr_t g = addr >> 3; g <= last;)
    {
        const uintptr_t stop = (g / PAGE + 1) * PAGE <= last ? (g / PAGE + 1) * PAGE : last + 1;
        const Cell* page = cellPage(g, false);
        for (; page != nullptr && g < stop; g++)
        {
            const Cell* c = page + g % PAGE;
            for (int u = 0; u < threads; u++)
            {
                if (u == self) { continue; }
                if (c->wm[u] != 0 && c->w[u] > me.vc.c[u]) { race(g << 3, true, pc, self, true, pcOf(c->wpc[u]), u); }
                if (c->rm[u] != 0 && c->r[u] > me.vc.c[u]) { race(g << 3, true, pc, self, false, pcOf(c->rpc[u]), u); }
            }
        }
        g = stop;
    }
}
void forget(uintptr_t addr, size_t n)
{
    if (n == 0 || slots == nullptr) { return; }
    const uintptr_t last = (addr + n - 1) >> 3;
    for (uintptr_t g = addr >> 3; g <= last;)
    {
        const uintptr_t stop = (g / PAGE + 1) * PAGE <= last ? (g / PAGE + 1) * PAGE : last + 1;
        if (Cell* page = cellPage(g, false)) { zero(page + g % PAGE, (stop - g) * sizeof(Cell)); }
        g = stop;
    }
}

// ---------------------------------------------------------------- the scheduler
void stackOf(Thread& t)
{
    pthread_attr_t a;
    void* p = nullptr;
    size_t n = 0;
    if (pthread_getattr_np(pthread_self(), &a) == 0)
    {
        pthread_attr_getstack(&a, &p, &n);
        pthread_attr_destroy(&a);
    }
    t.lo = reinterpret_cast<uintptr_t>(p);
    t.hi = t.lo + n;
}
void handOver(int to)
{
    cnt.switches++;
    if (pathLen + 2 < static_cast<int>(sizeof pathText))
    {
        pathText[pathLen++] = static_cast<char>('0' + to);
        pathText[pathLen] = 0;
    }
    cur = to;
    sem_post(&th[to].baton);
}
void waitForBaton(int me)
{
    while (sem_wait(&th[me].baton) != 0) {}
}
// Somebody else (or the running thread itself) goes on.
void reschedule(bool mayGoOn)
{
    const int me = self;
    int en[MAXT], n = 0;
    if (mayGoOn && th[me].state == RUNNABLE) { en[n++] = me; }
    const bool stays = n == 1;
    for (int i = 0; i < threads; i++)
    {
        if (i != me && th[i].state == RUNNABLE) { en[n++] = i; }
    }
    if (n == 0)
    {
        // a wait with a limit ends when nothing else can happen
        for (int i = 0; i < threads && n == 0; i++)
        {
            if (th[i].state == BLOCKED && th[i].timed)
            {
                th[i].state = RUNNABLE;
                th[i].timedOut = true;
                en[n++] = i;
            }
        }
    }
    if (n == 0) { fatal("deadlock", "no thread can go on: deadlock (schedule %s)", pathText); }
    int c = 0;
    if (n > 1 && (!stays || preempted < opt.preemptions))
    {
        inside = true;
        c = opt.choose(n);
        inside = false;
    }
    if (stays && c != 0) { preempted++; }
    const int to = en[c];
    if (to == me) { return; }
    handOver(to);
    if (th[me].state != DONE) { waitForBaton(me); }
}
void point(bool atomic = false)
{
    if (!on()) { return; }
    if (atomic && !opt.atomics) { return; }
    cnt.points++;
    reschedule(true);
}
void blockOn(const void* what, bool timed = false)
{
    Thread& t = th[self];
    t.state = BLOCKED;
    t.on = what;
    t.timed = timed;
    t.timedOut = false;
    reschedule(false);
}
void wake(const void* what, int most = MAXT)
{
    for (int i = 0; i < threads && most > 0; i++)
    {
        if (th[i].state == BLOCKED && th[i].on == what)
        {
            th[i].state = RUNNABLE;
            th[i].on = nullptr;
            most--;
        }
    }
}
void acquire(const Sync& s)
{
    cnt.syncs++;
    join(th[self].vc, s.vc);
}
void release(Sync& s, bool replace = false)
{
    cnt.syncs++;
    if (replace) { s.vc = th[self].vc; }
    else { join(s.vc, th[self].vc); }
    th[self].vc.c[self]++;
}
template <typename F> F next(const char* name)
{
    return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}
void* trampoline(void* p)
{
    Thread& t = *static_cast<Thread*>(p);
    self = static_cast<int>(&t - th);
    stackOf(t);
    waitForBaton(self);
    void* r = t.fn(t.arg);
    // the end of the thread
    inside = true;
    t.state = DONE;
    t.last = t.vc;
    wake(&t);
    inside = false;
    reschedule(false);
    self = -1;
    return r;
}
void mutexLock(pthread_mutex_t* m)
{
    for (;;)
    {
        Sync& s = sync(m);
        if (s.owner == 0)
        {
            s.owner = self + 1;
            s.depth = 1;
            acquire(s);
            return;
        }
        if (s.owner == self + 1)
        {
            if ((m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE)
            {
                s.depth++;
                return;
            }
            fatal("deadlock", "thread %d locks a mutex it already holds (schedule %s)", self, pathText);
        }
        blockOn(m);
    }
}
void mutexUnlock(pthread_mutex_t* m)
{
    Sync& s = sync(m);
    if (s.owner != self + 1) { fatal("unlock", "thread %d unlocks a mutex it does not hold (schedule %s)", self, pathText); }
    if (--s.depth > 0) { return; }
    s.owner = 0;
    release(s, true);
    wake(m);
}
} // namespace

namespace sched {
void begin(const Options& o)
{
    if (syncs == nullptr)
    {
        syncs = static_cast<Sync*>(calloc(SYNCS, sizeof(Sync)));
        slots = static_cast<Slot*>(calloc(SLOTS, sizeof(Slot)));
        arena = static_cast<Cell*>(mmap(nullptr, PAGES * PAGE * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        if (arena == MAP_FAILED) { abort(); }
    }
    else
    {
        zero(syncs, SYNCS * sizeof(Sync));
        zero(slots, SLOTS * sizeof(Slot));
        zero(arena, pagesUsed * PAGE * sizeof(Cell));
    }
    pagesUsed = 0;
    blockCount = 0;
    opt = o;
    zero(th, sizeof th);
    zero(&cnt, sizeof cnt);
    preempted = 0;
    pathLen = 0;
    pathText[0] = 0;
    threads = 1;
    created = 1;
    cur = 0;
    self = 0;
    th[0].state = RUNNABLE;
    th[0].vc.c[0] = 1;
    sem_init(&th[0].baton, 0, 0);
    stackOf(th[0]);
    inside = false;
    active = true;
}
void end()
{
    active = false;
    self = -1;
}
Counts counts()
{
    Counts c = cnt;
    c.threads = static_cast<uint64_t>(threads);
    return c;
}
int running()
{
    int n = 0;
    for (int i = 1; i < threads; i++) { n += th[i].state != DONE; }
    return n;
}
const char* path() { return pathText; }
} // namespace sched

// ---------------------------------------------------------------- interposed operations
extern "C" {
int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg) noexcept
{
    using F = int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
    static F real = next<F>("pthread_create");
    if (!on()) { return real(t, a, fn, arg); }
    point();
    if (created == opt.refuseThread) // (counted from 1)
    {
        opt.refuseThread = -1;
        return EAGAIN;
    }
    // the place of a thread whose end this one knows of can be taken again: all it did is before all the new one does
    int place = threads;
    for (int i = 1; i < threads && place == threads; i++)
    {
        bool known = th[i].joined;
        for (int k = 0; k < MAXT; k++) { known = known && th[i].last.c[k] <= th[self].vc.c[k]; }
        if (known) { place = i; }
    }
    if (place == MAXT) { fatal("harness", "more threads than the scheduler manages"); }
    inside = true;
    Thread& n = th[place];
    const uint32_t from = n.last.c[place];
    n.joined = false;
    n.on = nullptr;
    n.fn = fn;
    n.arg = arg;
    n.state = RUNNABLE;
    sem_init(&n.baton, 0, 0);
    n.vc = th[self].vc;
    n.vc.c[place] = from + 1;
    th[self].vc.c[self]++;
    const int r = real(t, a, trampoline, &n);
    inside = false;
    if (r != 0)
    {
        n.state = DONE;
        n.joined = true;
        return r;
    }
    n.handle = *t;
    created++;
    if (place == threads) { threads++; }
    return 0;
}
int pthread_join(pthread_t h, void** ret)
{
    using F = int (*)(pthread_t, void**);
    static F real = next<F>("pthread_join");
    if (!on()) { return real(h, ret); }
    point();
    for (int i = 1; i < threads; i++)
    {
        if (th[i].joined || !pthread_equal(th[i].handle, h)) { continue; }
        while (th[i].state != DONE) { blockOn(&th[i]); }
        join(th[self].vc, th[i].last);
        th[i].joined = true;
        break;
    }
    return real(h, ret);
}
int pthread_mutex_lock(pthread_mutex_t* m) noexcept
{
    using F = int (*)(pthread_mutex_t*);
    static F real = next<F>("pthread_mutex_lock");
    if (!on()) { return real(m); }
    point();
    mutexLock(m);
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept
{
    using F = int (*)(pthread_mutex_t*);
    static F real = next<F>("pthread_mutex_trylock");
    if (!on()) { return real(m); }
    point();
    const Sync& s = sync(m);
    if (s.owner != 0 && !(s.owner == self + 1 && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE)) { return EBUSY; }
    mutexLock(m);
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept
{
    using F = int (*)(pthread_mutex_t*);
    static F real = next<F>("pthread_mutex_unlock");
    if (!on()) { return real(m); }
    mutexUnlock(m);
    return 0;
}
// (read-write locks: readers may share; a count of them is kept in depth)
int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept
{
    using F = int (*)(pthread_rwlock_t*);
    static F real = next<F>("pthread_rwlock_wrlock");
    if (!on()) { return real(m); }
    point();
    while (sync(m).owner != 0 || sync(m).depth != 0) { blockOn(m); }
    sync(m).owner = self + 1;
    acquire(sync(m));
    return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept
{
    using F = int (*)(pthread_rwlock_t*);
    static F real = next<F>("pthread_rwlock_rdlock");
    if (!on()) { return real(m); }
    point();
    while (sync(m).owner != 0) { blockOn(m); }
    sync(m).depth++;
    acquire(sync(m));
    return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept
{
    using F = int (*)(pthread_rwlock_t*);
    static F real = next<F>("pthread_rwlock_unlock");
    if (!on()) { return real(m); }
    Sync& s = sync(m);
    if (s.owner == self + 1) { s.owner = 0; }
    else { s.depth--; }
    release(s);
    wake(m);
    return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    using F = int (*)(pthread_cond_t*, pthread_mutex_t*);
    static F real = next<F>("pthread_cond_wait");
    if (!on()) { return real(c, m); }
    point();
    mutexUnlock(m);
    blockOn(c);
    acquire(sync(c));
    mutexLock(m);
    return 0;
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t)
{
    using F = int (*)(pthread_cond_t*, pthread_mutex_t*, const timespec*);
    static F real = next<F>("pthread_cond_timedwait");
    if (!on()) { return real(c, m, t); }
    point();
    mutexUnlock(m);
    blockOn(c, true);
    const bool late = th[self].timedOut;
    acquire(sync(c));
    mutexLock(m);
    return late ? ETIMEDOUT : 0;
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const timespec* t) { return pthread_cond_timedwait(c, m, t); }
int pthread_cond_signal(pthread_cond_t* c) noexcept
{
    using F = int (*)(pthread_cond_t*);
    static F real = next<F>("pthread_cond_signal");
    if (!on()) { return real(c); }
    point();
    release(sync(c));
    wake(c, 1);
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) noexcept
{
    using F = int (*)(pthread_cond_t*);
    static F real = next<F>("pthread_cond_broadcast");
    if (!on()) { return real(c); }
    point();
    release(sync(c));
    wake(c);
    return 0;
}
int pthread_once(pthread_once_t* o, void (*fn)())
{
    using F = int (*)(pthread_once_t*, void (*)());
    static F real = next<F>("pthread_once");
    if (!on()) { return real(o, fn); }
    point();
    for (;;)
    {
        Sync& s = sync(o);
        if ((*o & 2) != 0)
        {
            acquire(s);
            return 0;
        }
        if (s.owner == 0)
        {
            s.owner = self + 1;
            break;
        }
        if (s.owner == self + 1) { fatal("deadlock", "thread %d re-enters a once function (schedule %s)", self, pathText); }
        blockOn(o);
    }
    try
    {
        fn();
    }
    catch (...)
    {
        sync(o).owner = 0;
        release(sync(o));
        wake(o);
        throw;
    }
    *o = 2;
    sync(o).owner = 0;
    release(sync(o));
    wake(o);
    return 0;
}
int __cxa_guard_acquire(long long* g)
{
    using F = int (*)(long long*);
    static F real = next<F>("__cxa_guard_acquire");
    if (!on()) { return real(g); }
    point();
    for (;;)
    {
        Sync& s = sync(g);
        if ((*reinterpret_cast<uint8_t*>(g) & 1) != 0)
        {
            acquire(s);
            return 0;
        }
        if (s.owner == 0)
        {
            s.owner = self + 1;
            acquire(s);
            return 1;
        }
        if (s.owner == self + 1) { fatal("deadlock", "thread %d re-enters the initialisation of a static (schedule %s)", self, pathText); }
        blockOn(g);
    }
}
void __cxa_guard_release(long long* g)
{
    using F = void (*)(long long*);
    static F real = next<F>("__cxa_guard_release");
    if (!on())
    {
        real(g);
        return;
    }
    *reinterpret_cast<uint8_t*>(g) = 1;
    sync(g).owner = 0;
    release(sync(g));
    wake(g);
}
void __cxa_guard_abort(long long* g)
{
    using F = void (*)(long long*);
    static F real = next<F>("__cxa_guard_abort");
    if (!on())
    {
        real(g);
        return;
    }
    sync(g).owner = 0;
    release(sync(g));
    wake(g);
}
// std::future's wait and notify
bool futexWait(void* self_, unsigned* addr, unsigned val, bool hasTimeout, int64_t s, int64_t ns) asm("_ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE");
bool futexWait(void* self_, unsigned* addr, unsigned val, bool hasTimeout, int64_t s, int64_t ns)
{
    using F = bool (*)(void*, unsigned*, unsigned, bool, int64_t, int64_t);
    static F real = next<F>("_ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE");
    if (!on()) { return real(self_, addr, val, hasTimeout, s, ns); }
    if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) { return true; }
    blockOn(addr, hasTimeout);
    return !th[self].timedOut;
}
void futexNotify(unsigned* addr) asm("_ZNSt28__atomic_futex_unsigned_base19_M_futex_notify_allEPj");
void futexNotify(unsigned* addr)
{
    using F = void (*)(unsigned*);
    static F real = next<F>("_ZNSt28__atomic_futex_unsigned_base19_M_futex_notify_allEPj");
    if (!on())
    {
        real(addr);
        return;
    }
    wake(addr);
}

// ---------------------------------------------------------------- instrumentation
#define PC reinterpret_cast<uintptr_t>(__builtin_return_address(0)) - 1
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(N)                                                                                                                                        \
    void __tsan_read##N(void* p) { access(reinterpret_cast<uintptr_t>(p), N, false, PC); }                                                           \
    void __tsan_write##N(void* p) { access(reinterpret_cast<uintptr_t>(p), N, true, PC); }                                                           \
    void __tsan_unaligned_read##N(void* p) { access(reinterpret_cast<uintptr_t>(p), N, false, PC); }                                                 \
    void __tsan_unaligned_write##N(void* p) { access(reinterpret_cast<uintptr_t>(p), N, true, PC); }                                                 \
    void __tsan_volatile_read##N(void* p) { access(reinterpret_cast<uintptr_t>(p), N, false, PC); }                                                  \
    void __tsan_volatile_write##N(void* p) { access(reinterpret_cast<uintptr_t>(p), N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { access(reinterpret_cast<uintptr_t>(p), n, false, PC); }
void __tsan_write_range(void* p, size_t n) { access(reinterpret_cast<uintptr_t>(p), n, true, PC); }
void __tsan_vptr_update(void** p, void* v)
{
    if (*p != v) { access(reinterpret_cast<uintptr_t>(p), 8, true, PC); }
}
void __tsan_vptr_read(void** p) { access(reinterpret_cast<uintptr_t>(p), 8, false, PC); }

static void before(const void* p, int mo, bool load)
{
    if (!on()) { return; }
    point(true);
    if (load && mo != 0 && mo != 3) { acquire(sync(p)); }
}
static void after(const void* p, int mo, bool store)
{
    if (!on()) { return; }
    if (mo == 3 || mo == 4 || mo == 5) { release(sync(p), store); }
    else if (store) { zero(&sync(p).vc, sizeof(VC)); }
}
#define ATOMIC(B, T)                                                                                                                                 \
    T __tsan_atomic##B##_load(const volatile T* p, int mo)                                                                                           \
    {                                                                                                                                                \
        before((const void*)p, mo, true);                                                                                                            \
        return __atomic_load_n(p, __ATOMIC_SEQ_CST);                                                                                                 \
    }                                                                                                                                                \
    void __tsan_atomic##B##_store(volatile T* p, T v, int mo)                                                                                        \
    {                                                                                                                                                \
        before((const void*)p, mo, false);                                                                                                           \
        __atomic_store_n(p, v, __ATOMIC_SEQ_CST);                                                                                                    \
        after((const void*)p, mo, true);                                                                                                             \
    }                                                                                                                                                \
    T __tsan_atomic##B##_exchange(volatile T* p, T v, int mo)                                                                                        \
    {                                                                                                                                                \
        before((const void*)p, mo, true);                                                                                                            \
        const T r = __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST);                                                                                     \
        after((const void*)p, mo, false);                                                                                                            \
        return r;                                                                                                                                    \
    }                                                                                                                                                \
    int __tsan_atomic##B##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int fmo)                                                        \
    {                                                                                                                                                \
        before((const void*)p, mo, true);                                                                                                            \
        const bool ok = __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                             \
        if (ok) { after((const void*)p, mo, false); }                                                                                                \
        return ok;                                                                                                                                   \
    }                                                                                                                                                \
    int __tsan_atomic##B##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int fmo)                                                          \
    {                                                                                                                                                \
        return __tsan_atomic##B##_compare_exchange_strong(p, e, v, mo, fmo);                                                                         \
    }                                                                                                                                                \
    T __tsan_atomic##B##_compare_exchange_val(volatile T* p, T e, T v, int mo, int fmo)                                                              \
    {                                                                                                                                                \
        __tsan_atomic##B##_compare_exchange_strong(p, &e, v, mo, fmo);                                                                               \
        return e;                                                                                                                                    \
    }
#define FETCH(B, T, NAME)                                                                                                                            \
    T __tsan_atomic##B##_fetch_##NAME(volatile T* p, T v, int mo)                                                                                    \
    {                                                                                                                                                \
        before((const void*)p, mo, true);                                                                                                            \
        const T r = __atomic_fetch_##NAME(p, v, __ATOMIC_SEQ_CST);                                                                                   \
        after((const void*)p, mo, false);                                                                                                            \
        return r;                                                                                                                                    \
    }
#define ALL(B, T) ATOMIC(B, T) FETCH(B, T, add) FETCH(B, T, sub) FETCH(B, T, and) FETCH(B, T, or) FETCH(B, T, xor) FETCH(B, T, nand)
ALL(8, uint8_t) ALL(16, uint16_t) ALL(32, uint32_t) ALL(64, uint64_t)
void __tsan_atomic_thread_fence(int) { point(true); }
void __tsan_atomic_signal_fence(int) {}

// ---------------------------------------------------------------- block operations called by instrumented code
static inline bool fromProgram(uintptr_t pc) { return pc >= reinterpret_cast<uintptr_t>(&__executable_start) && pc < reinterpret_cast<uintptr_t>(&etext); }
void* memcpy(void* __restrict d, const void* __restrict s, size_t n) noexcept
{
    if (active && n > 0 && fromProgram(PC))
    {
        access(reinterpret_cast<uintptr_t>(s), n, false, PC);
        access(reinterpret_cast<uintptr_t>(d), n, true, PC);
    }
    void* r = d;
    asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n)::"memory");
    return r;
}
void* memmove(void* d, const void* s, size_t n) noexcept
{
    if (active && n > 0 && fromProgram(PC))
    {
        access(reinterpret_cast<uintptr_t>(s), n, false, PC);
        access(reinterpret_cast<uintptr_t>(d), n, true, PC);
    }
    void* r = d;
    if (d <= s || static_cast<const char*>(s) + n <= d) { asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n)::"memory"); }
    else
    {
        d = static_cast<char*>(d) + n - 1;
        s = static_cast<const char*>(s) + n - 1;
        asm volatile("std\n rep movsb\n cld" : "+D"(d), "+S"(s), "+c"(n)::"memory");
    }
    return r;
}
void* memset(void* d, int v, size_t n) noexcept
{
    if (active && n > 0 && fromProgram(PC)) { access(reinterpret_cast<uintptr_t>(d), n, true, PC); }
    void* r = d;
    asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(v) : "memory");
    return r;
}
int memcmp(const void* a, const void* b, size_t n) noexcept
{
    const auto *x = static_cast<const volatile unsigned char*>(a), *y = static_cast<const volatile unsigned char*>(b);
    size_t i = 0;
    while (i < n && x[i] == y[i]) { i++; }
    if (active && n > 0 && fromProgram(PC))
    {
        const size_t k = i < n ? i + 1 : n;
        access(reinterpret_cast<uintptr_t>(a), k, false, PC);
        access(reinterpret_cast<uintptr_t>(b), k, false, PC);
    }
    return i < n ? static_cast<int>(x[i]) - static_cast<int>(y[i]) : 0;
}
size_t strlen(const char* s) noexcept
{
    const volatile char* p = s;
    size_t n = 0;
    while (p[n] != 0) { n++; }
    if (active && fromProgram(PC)) { access(reinterpret_cast<uintptr_t>(s), n + 1, false, PC); }
    return n;
}
} // extern "C"

// ---------------------------------------------------------------- memory: a block that is given back is written to, then unknown
static void given(void* p)
{
    if (p != nullptr && active && self == cur) { forget(reinterpret_cast<uintptr_t>(p), malloc_usable_size(p)); }
}
static void* fresh(size_t n)
{
    void* p = malloc(n == 0 ? 1 : n);
    if (p == nullptr) { abort(); }
    given(p);
    if (n >= LARGE && on() && blockCount < BLOCKS) { blocks[blockCount++] = {reinterpret_cast<uintptr_t>(p), reinterpret_cast<uintptr_t>(p) + n, self, th[self].vc.c[self]}; }
    return p;
}
static void drop(void* p, uintptr_t pc)
{
    if (p == nullptr) { return; }
    if (active && self == cur) // (not the destructors of a thread that has ended)
    {
        if (on() && fromProgram(pc)) { gone(reinterpret_cast<uintptr_t>(p), malloc_usable_size(p), pc); }
        forget(reinterpret_cast<uintptr_t>(p), malloc_usable_size(p));
        blockGone(reinterpret_cast<uintptr_t>(p));
    }
    free(p);
}
void* operator new(size_t n) { return fresh(n); }
void* operator new[](size_t n) { return fresh(n); }
void operator delete(void* p) noexcept { drop(p, PC); }
void operator delete[](void* p) noexcept { drop(p, PC); }
void operator delete(void* p, size_t) noexcept { drop(p, PC); }
void operator delete[](void* p, size_t) noexcept { drop(p, PC); }
