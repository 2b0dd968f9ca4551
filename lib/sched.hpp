// Controlled scheduler: every thread of the process under test runs only when it is told to, and every choice of which
// thread runs next (and which waiter a notify wakes) is taken by the explorer. pthread_create/join, mutexes, condition
// variables and futex waits are replaced by definitions in this file (they also serve boost::thread and libstdc++, which
// call them through the dynamic linker). Include in exactly one translation unit of the harness.
//
// explore(budget, body, check): runs body under every schedule that deviates at most `budget` times from the default
// one (keep running the current thread; when it blocks, the next one in creation order; wake the longest waiter).
#pragma once
#include <atomic>
#include <cerrno>
#include <condition_variable>
#include <cstdarg>
#include <dlfcn.h>
#include <functional>
#include <linux/futex.h>
#include <map>
#include <pthread.h>
#include <sched.h>
#include <string>
#include <sys/syscall.h>
#include <unistd.h>
#include <vector>

#include "mc.hpp"

namespace sched {

enum class St { ready, mutex, cond, join, futex, done };

struct Thread {
    int id = 0;
    St st = St::ready;
    const void *on = nullptr;     // mutex, condition or futex address
    int target = -1;              // joined thread
    bool timed = false, timed_out = false;
    std::atomic<int> go{0};
    void *(*fn)(void *) = nullptr;
    void *arg = nullptr;
    pthread_t native{};
};

inline thread_local Thread *self = nullptr;
inline bool active = false;
inline std::vector<Thread *> threads;          // all of this execution, by id
inline std::map<const void *, int> owner;      // locked mutexes
inline std::vector<std::pair<const void *, int>> queue;  // waiters in order of arrival (condition and futex)
inline std::vector<int> prefix, taken;
struct Point { int n; int free; };              // alternatives; free: choosing another one costs nothing
inline std::vector<Point> points;
inline long steps = 0, horizon = 20000;
inline std::string note;
inline bool spurious = false;                  // waiting threads may wake up without a reason (costs a deviation)

inline long raw_syscall(long n, long a, long b, long c, long d, long e, long f) {
    long r;
    register long r10 asm("r10") = d;
    register long r8 asm("r8") = e;
    register long r9 asm("r9") = f;
    asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}

template<typename F>
inline F real(const char *name) {
    return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}

inline std::string schedule() {
    std::string s = "schedule(step:choice)";
    int n = 0;
    for (std::size_t i = 0; i < taken.size(); ++i) {
        if (taken[i]) { s += " " + std::to_string(i) + ":" + std::to_string(taken[i]); ++n; }
    }
    return n ? s : s + " default";
}

[[noreturn]] inline void stuck(const std::string &what) {
    std::string m = what + " under " + schedule() + ";";
    static const char *names[] = {"ready", "waits for a mutex", "waits for a condition", "joins", "waits for a futex", "ended"};
    for (auto *t : threads) { m += " T" + std::to_string(t->id) + " " + names[static_cast<int>(t->st)]; }
    mc::crash_note(m.c_str());
    _exit(44);
}

inline int choose(int n, bool free_switch) {
    const std::size_t i = taken.size();
    int c = 0;
    if (i < prefix.size()) {
        c = prefix[i];
        if (c >= n) { stuck("the schedule could not be replayed (choice out of range)"); }
    }
    taken.push_back(c);
    points.push_back({n, free_switch});
    return c;
}

inline void wait_turn(Thread *t) {
    while (t->go.load(std::memory_order_acquire) == 0) {
        raw_syscall(SYS_futex, reinterpret_cast<long>(&t->go), FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
    }
    t->go.store(0, std::memory_order_relaxed);
}

inline void give(Thread *t) {
    t->go.store(1, std::memory_order_release);
    raw_syscall(SYS_futex, reinterpret_cast<long>(&t->go), FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}

inline bool enabled(const Thread *t) {
    switch (t->st) {
        case St::ready: return true;
        case St::mutex: return not owner.contains(t->on);
        case St::join: return threads[t->target]->st == St::done;
        default: return false;
    }
}

inline void unqueue(int id) {
    for (auto it = queue.begin(); it != queue.end();) { it = it->second == id ? queue.erase(it) : it + 1; }
}

// the calling thread is ready or has just blocked or ended; someone else may run now
inline void reschedule() {
    Thread *me = self;
    if (++steps > horizon) { stuck("livelock: no end within the horizon"); }
    std::vector<Thread *> opt;
    const int n = static_cast<int>(threads.size());
    for (int k = 0; k < n; ++k) {
        Thread *t = threads[(me->id + k) % n];
        if (enabled(t)) { opt.push_back(t); }
    }
    const std::size_t running = opt.size();
    if (spurious) {
        for (auto *t : threads) { if (t->st == St::cond) { opt.push_back(t); } }
    }
    if (opt.empty() or running == 0) {
        opt.clear();
        for (auto *t : threads) { if (t->timed and (t->st == St::cond or t->st == St::futex)) { t->timed_out = true; opt.push_back(t); break; } }
        if (opt.empty()) { stuck("deadlock"); }
    }
    Thread *next = opt.size() == 1 ? opt[0] : opt[choose(static_cast<int>(opt.size()), false)];
    if (next->st == St::cond or next->st == St::futex) { unqueue(next->id); }
    if (next->st != St::done) { next->st = St::ready; }
    if (next != me) {
        const bool ended = me->st == St::done;
        give(next);
        if (not ended) { wait_turn(me); }
    }
}

inline void point() {
    if (active and self) { reschedule(); }
}

inline void lock(const void *m) {
    while (owner.contains(m)) {
        self->st = St::mutex;
        self->on = m;
        reschedule();
    }
    owner[m] = self->id;
}

inline int wake(const void *a, int n) {
    int woken = 0;
    while (woken < n) {
        std::vector<std::size_t> w;
        for (std::size_t i = 0; i < queue.size(); ++i) { if (queue[i].first == a) { w.push_back(i); } }
        if (w.empty()) { break; }
        const std::size_t k = (w.size() == 1 or n > static_cast<int>(w.size())) ? 0 : choose(static_cast<int>(w.size()), false);
        Thread *t = threads[queue[w[k]].second];
        queue.erase(queue.begin() + w[k]);
        t->st = St::ready;
        ++woken;
    }
    return woken;
}

inline bool controlled() { return active and self != nullptr; }

// native threads are kept and used again by later executions (creating thousands per second exhausts the sandbox)
struct Native {
    std::atomic<int> job{0};
    std::atomic<bool> idle{true};
    long used_in = -1;
    Thread *t = nullptr;
    pthread_t handle{};
};
inline std::vector<Native *> natives;
inline long execution = 0;

inline void *native_loop(void *p) {
    auto *n = static_cast<Native *>(p);
    while (true) {
        while (n->job.load(std::memory_order_acquire) == 0) {
            raw_syscall(SYS_futex, reinterpret_cast<long>(&n->job), FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
        }
        n->job.store(0, std::memory_order_relaxed);
        Thread *t = n->t;
        self = t;
        wait_turn(t);
        (void) t->fn(t->arg);
        n->idle.store(true, std::memory_order_release);
        t->st = St::done;
        reschedule();
        self = nullptr;
    }
}

inline int cond_wait(const void *c, pthread_mutex_t *m, bool timed) {
    point();
    owner.erase(m);
    self->st = St::cond;
    self->on = c;
    self->timed = timed;
    self->timed_out = false;
    queue.emplace_back(c, self->id);
    reschedule();
    self->timed = false;
    const bool out = self->timed_out;
    self->timed_out = false;
    lock(m);
    return out ? ETIMEDOUT : 0;
}

// ---- one execution
inline void run(const std::vector<int> &p, const std::function<void()> &body) {
    prefix = p;
    taken.clear();
    points.clear();
    owner.clear();
    queue.clear();
    steps = 0;
    ++execution;
    for (auto *t : threads) { delete t; }
    threads.clear();
    auto *m = new Thread;
    threads.push_back(m);
    self = m;
    active = true;
    body();
    for (auto *t : threads) {
        if (t != m and t->st != St::done) { stuck("threads left over at the end"); }
    }
    active = false;
    self = nullptr;
    if (taken.size() < p.size()) { mc::fail("the schedule could not be replayed (too few choices) under ", schedule()); }
}

struct Stats { long executions = 0, steps = 0; };

inline void explore_from(const std::vector<int> &p, int budget, const std::function<void()> &body,
        const std::function<void()> &check, Stats &st) {
    run(p, body);
    ++st.executions;
    st.steps += steps;
    check();
    if (budget == 0) { return; }
    const auto pts = points;
    const auto tk = taken;
    for (std::size_t i = p.size(); i < pts.size(); ++i) {
        for (int alt = 1; alt < pts[i].n; ++alt) {
            std::vector<int> q(tk.begin(), tk.begin() + i);
            q.push_back(alt);
            explore_from(q, budget - 1, body, check, st);
        }
    }
}

// all schedules with at most budget deviations; every first deviation is one case, so that the processes share the work
inline void explore(const std::string &name, int budget, const std::function<void()> &body, const std::function<void()> &check) {
    mc::suite(name);
    cpu_set_t cs;
    CPU_ZERO(&cs);
    CPU_SET(mc::g.shard % std::max(1L, sysconf(_SC_NPROCESSORS_ONLN)), &cs);
    sched_setaffinity(0, sizeof cs, &cs);
    std::vector<Point> pts;
    std::vector<int> def;
    Stats total;
    auto one = [&](const std::vector<int> &p, int b) {
        mc::exec([&] { return name + " " + schedule(); }, [&] {
            Stats st;
            try {
                explore_from(p, b, body, check, st);
            } catch (...) {
                active = false;
                mc::count("schedules", st.executions);
                throw;
            }
            mc::count("schedules", st.executions);
            mc::count("context steps", st.steps);
            mc::transition(st.steps);
            mc::state(mc::hstr(name + mc::show(p)));
        });
    };
    // the default schedule is needed by every process to know where it can deviate
    // (the first run warms up what is initialized once per process)
    run({}, body);
    if (mc::mine()) { one({}, 0); }
    run({}, body);
    pts = points;
    def = taken;
    {
        run({}, body);
        bool same = pts.size() == points.size() and def == taken;
        for (std::size_t i = 0; same and i < pts.size(); ++i) { same = pts[i].n == points[i].n; }
        if (not same) { mc::fail("two runs of one schedule differ: there is nondeterminism that is not controlled"); }
    }
    if (budget == 0) { return; }
    for (std::size_t i = 0; i < pts.size(); ++i) {
        for (int alt = 1; alt < pts[i].n; ++alt) {
            if (not mc::mine()) { continue; }
            std::vector<int> q(def.begin(), def.begin() + i);
            q.push_back(alt);
            one(q, budget - 1);
        }
    }
}

}  // namespace sched

extern "C" {

int pthread_create(pthread_t *th, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) {
    static auto f = sched::real<int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *)>("pthread_create");
    if (not sched::controlled()) { return f(th, attr, fn, arg); }
    auto *t = new sched::Thread;
    t->id = static_cast<int>(sched::threads.size());
    t->fn = fn;
    t->arg = arg;
    sched::threads.push_back(t);
    sched::Native *n = nullptr;
    for (auto *x : sched::natives) {
        if (x->used_in != sched::execution and x->idle.load(std::memory_order_acquire)) { n = x; break; }
    }
    if (n == nullptr) {
        n = new sched::Native;
        if (f(&n->handle, nullptr, sched::native_loop, n) != 0) { sched::stuck("could not create a thread"); }
        sched::natives.push_back(n);
    }
    n->used_in = sched::execution;
    n->idle.store(false, std::memory_order_relaxed);
    n->t = t;
    t->native = n->handle;
    n->job.store(1, std::memory_order_release);
    sched::raw_syscall(SYS_futex, reinterpret_cast<long>(&n->job), FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
    *th = t->native;
    sched::point();
    return 0;
}

int pthread_join(pthread_t th, void **ret) {
    static auto f = sched::real<int (*)(pthread_t, void **)>("pthread_join");
    if (sched::controlled()) {
        for (std::size_t i = sched::threads.size(); i-- > 0;) {
            auto *t = sched::threads[i];
            if (t->id != 0 and pthread_equal(t->native, th)) {
                sched::point();
                while (t->st != sched::St::done) {
                    sched::self->st = sched::St::join;
                    sched::self->target = t->id;
                    sched::reschedule();
                }
                if (ret) { *ret = nullptr; }
                return 0;
            }
        }
    }
    return f(th, ret);
}

int pthread_detach(pthread_t th) {
    static auto f = sched::real<int (*)(pthread_t)>("pthread_detach");
    if (sched::controlled()) { return 0; }
    return f(th);
}

int pthread_mutex_lock(pthread_mutex_t *m) {
    static auto f = sched::real<int (*)(pthread_mutex_t *)>("pthread_mutex_lock");
    if (not sched::controlled()) { return f(m); }
    sched::point();
    sched::lock(m);
    return 0;
}

int pthread_mutex_trylock(pthread_mutex_t *m) {
    static auto f = sched::real<int (*)(pthread_mutex_t *)>("pthread_mutex_trylock");
    if (not sched::controlled()) { return f(m); }
    sched::point();
    if (sched::owner.contains(m)) { return EBUSY; }
    sched::owner[m] = sched::self->id;
    return 0;
}

int pthread_mutex_unlock(pthread_mutex_t *m) {
    static auto f = sched::real<int (*)(pthread_mutex_t *)>("pthread_mutex_unlock");
    if (not sched::controlled()) { return f(m); }
    sched::owner.erase(m);
    return 0;
}

int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    static auto f = sched::real<int (*)(pthread_cond_t *, pthread_mutex_t *)>("pthread_cond_wait");
    if (not sched::controlled()) { return f(c, m); }
    return sched::cond_wait(c, m, false);
}

int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const timespec *ts) {
    static auto f = sched::real<int (*)(pthread_cond_t *, pthread_mutex_t *, const timespec *)>("pthread_cond_timedwait");
    if (not sched::controlled()) { return f(c, m, ts); }
    return sched::cond_wait(c, m, true);
}

int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const timespec *ts) {
    static auto f = sched::real<int (*)(pthread_cond_t *, pthread_mutex_t *, clockid_t, const timespec *)>("pthread_cond_clockwait");
    if (not sched::controlled()) { return f(c, m, k, ts); }
    return sched::cond_wait(c, m, true);
}

int pthread_cond_signal(pthread_cond_t *c) {
    static auto f = sched::real<int (*)(pthread_cond_t *)>("pthread_cond_signal");
    if (not sched::controlled()) { return f(c); }
    sched::point();
    sched::wake(c, 1);
    return 0;
}

int pthread_cond_broadcast(pthread_cond_t *c) {
    static auto f = sched::real<int (*)(pthread_cond_t *)>("pthread_cond_broadcast");
    if (not sched::controlled()) { return f(c); }
    sched::point();
    sched::wake(c, 1 << 20);
    return 0;
}

// std::atomic waiting and std::counting_semaphore block through syscall(SYS_futex)
long syscall(long n, ...) {
    va_list ap;
    va_start(ap, n);
    long a[6];
    for (auto &x : a) { x = va_arg(ap, long); }
    va_end(ap);
    if (n == SYS_futex and sched::controlled()) {
        const int op = static_cast<int>(a[1]) & ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
        auto *addr = reinterpret_cast<int *>(a[0]);
        if (op == FUTEX_WAIT or op == FUTEX_WAIT_BITSET) {
            sched::point();
            if (*addr != static_cast<int>(a[2])) { errno = EAGAIN; return -1; }
            sched::self->st = sched::St::futex;
            sched::self->on = addr;
            sched::self->timed = a[3] != 0;
            sched::self->timed_out = false;
            sched::queue.emplace_back(addr, sched::self->id);
            sched::reschedule();
            sched::self->timed = false;
            if (sched::self->timed_out) { sched::self->timed_out = false; errno = ETIMEDOUT; return -1; }
            return 0;
        }
        if (op == FUTEX_WAKE or op == FUTEX_WAKE_BITSET) {
            sched::point();
            return sched::wake(addr, static_cast<int>(a[2]));
        }
    }
    const long r = sched::raw_syscall(n, a[0], a[1], a[2], a[3], a[4], a[5]);
    if (r < 0 and r > -4096) { errno = static_cast<int>(-r); return -1; }
    return r;
}

// spinning threads let others run
int sched_yield() {
    if (sched::controlled()) { return 0; }
    return static_cast<int>(sched::raw_syscall(SYS_sched_yield, 0, 0, 0, 0, 0, 0));
}

}
