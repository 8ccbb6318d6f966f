// C29: a thread pool runs every job exactly once and its wait returns when, and only when, all of them are done.
// The pool's threads are real threads of which one at a time runs; which one is decided at every memory access and every
// synchronisation of the library's code by the case's schedule.
#include "pbt.hpp"
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>
#include <deque>
extern "C" {
#include "thpool.h"
int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int __real_pthread_detach(pthread_t);
}
using pbt::Case;

namespace {
enum St { RUN, MUTEX, COND, JOIN, DONE };
struct Th {
    int          id;
    sem_t        go;
    St           st = RUN;
    const void * on = nullptr;
    void *(*fn)(void *) = nullptr;
    void *       arg = nullptr;
};
std::vector<Th *>           T;
std::map<const void *, int> held; // mutex -> thread
thread_local Th *           self;
bool                        active;
uint64_t                    rs, steps, limit, switches;
unsigned                    rate; // a switch at one access in so many
bool                        spurious;
double                      vtime;
std::string                 bad; // failure found outside the main thread
struct Stop {};

uint64_t rnd(uint64_t n) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs % n; }
bool
ready(Th *t)
{
    if (t->st == MUTEX) return !held.count(t->on);
    if (t->st == JOIN) return ((Th *)t->on)->st == DONE;
    if (t->st == COND) return spurious && rnd(200) == 0;
    return t->st == RUN;
}
void
give(Th *t)
{
    if (t == self) return;
    Th *me = self;
    switches++;
    sem_post(&t->go);
    if (me->st != DONE) while (sem_wait(&me->go)) {}
}
void
halt(const char *why)
{
    if (bad.empty()) bad = why;
    if (self->id == 0) throw Stop();
    give(T[0]); // never comes back
    for (;;) pause();
}
// lets some thread that can run go on; the caller may be blocked
void
pick()
{
    if (++steps > limit) halt("hang: no progress");
    std::vector<Th *> r;
    for (Th *t : T) if (ready(t)) r.push_back(t);
    if (r.empty() && spurious) for (Th *t : T) if (t->st == COND) { r.push_back(t); break; }
    if (!spurious || true) {
        bool any = false;
        for (Th *t : T) any |= t->st == RUN || (t->st != COND && ready(t));
        if (!any) {
            bool all_done = true;
            for (Th *t : T) all_done &= t->st == DONE;
            if (!all_done) halt("deadlock: every thread waits");
        }
    }
    if (r.empty()) return;
    Th *t = r[rnd(r.size())];
    if (t->st == COND) t->st = RUN;
    give(t);
    if (self->id == 0 && !bad.empty()) throw Stop();
}
void
point(unsigned r)
{
    if (!active || !self || self->st != RUN) return;
    if (++steps > limit) halt("hang: no progress");
    if (rnd(r) == 0) pick();
}
void *
tramp(void *a)
{
    self = (Th *)a;
    while (sem_wait(&self->go)) {}
    self->fn(self->arg);
    self->st = DONE;
    pick();
    return nullptr;
}
} // namespace

extern "C" {
void __sanitizer_cov_load1(uint8_t *) { point(rate); }
void __sanitizer_cov_load2(uint16_t *) { point(rate); }
void __sanitizer_cov_load4(uint32_t *) { point(rate); }
void __sanitizer_cov_load8(uint64_t *) { point(rate); }
void __sanitizer_cov_load16(__uint128_t *) { point(rate); }
void __sanitizer_cov_store1(uint8_t *) { point(rate); }
void __sanitizer_cov_store2(uint16_t *) { point(rate); }
void __sanitizer_cov_store4(uint32_t *) { point(rate); }
void __sanitizer_cov_store8(uint64_t *) { point(rate); }
void __sanitizer_cov_store16(__uint128_t *) { point(rate); }

int
__wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg)
{
    Th *n = new Th;
    n->id = (int)T.size();
    sem_init(&n->go, 0, 0);
    n->fn = fn;
    n->arg = arg;
    T.push_back(n);
    pthread_t real;
    int r = __real_pthread_create(&real, nullptr, tramp, n);
    if (r) return r;
    __real_pthread_detach(real);
    *t = (pthread_t)(n->id + 1);
    point(2);
    return 0;
}
int __wrap_pthread_detach(pthread_t) { return 0; }
int __wrap_pthread_kill(pthread_t, int) { return 0; }
int
__wrap_pthread_join(pthread_t t, void **)
{
    while (T[(size_t)t - 1]->st != DONE) {
        self->st = JOIN; self->on = T[(size_t)t - 1];
        pick();
    }
    self->st = RUN;
    return 0;
}
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *) { *(volatile char *)m = 0; held.erase(m); return 0; }
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m) { held.erase(m); return 0; }
int
__wrap_pthread_mutex_lock(pthread_mutex_t *m)
{
    (void)*(volatile char *)m; // the address must be valid
    point(3);
    if (held.count(m) && held[m] == self->id) halt("deadlock: a thread locks a mutex it holds");
    while (held.count(m)) {
        self->st = MUTEX; self->on = m;
        pick();
    }
    self->st = RUN;
    held[m] = self->id;
    return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { point(3); if (held.count(m)) return 16; held[m] = self->id; return 0; }
int
__wrap_pthread_mutex_unlock(pthread_mutex_t *m)
{
    point(3);
    (void)*(volatile char *)m;
    if (!held.count(m) || held[m] != self->id) halt("unlocks a mutex it does not hold");
    held.erase(m);
    point(3);
    return 0;
}
int __wrap_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) { *(volatile char *)c = 0; return 0; }
int __wrap_pthread_cond_destroy(pthread_cond_t *) { return 0; }
int
__wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
    (void)*(volatile char *)c;
    if (!held.count(m) || held[m] != self->id) halt("waits with a mutex it does not hold");
    held.erase(m);
    self->st = COND; self->on = c;
    pick();
    return __wrap_pthread_mutex_lock(m);
}
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *)
{
    held.erase(m);
    point(1);
    vtime += 1;
    __wrap_pthread_mutex_lock(m);
    return 110;
}
int
__wrap_pthread_cond_signal(pthread_cond_t *c)
{
    point(3);
    (void)*(volatile char *)c;
    std::vector<Th *> w;
    for (Th *t : T) if (t->st == COND && t->on == c) w.push_back(t);
    if (!w.empty()) w[rnd(w.size())]->st = RUN;
    point(3);
    return 0;
}
int
__wrap_pthread_cond_broadcast(pthread_cond_t *c)
{
    point(3);
    (void)*(volatile char *)c;
    for (Th *t : T) if (t->st == COND && t->on == c) t->st = RUN;
    point(3);
    return 0;
}
unsigned __wrap_sleep(unsigned s) { if (!self) return 0; vtime += s; point(1); return 0; }
int __wrap_usleep(useconds_t u) { if (!self) return 0; vtime += u / 1e6; point(1); return 0; }
int __wrap_nanosleep(const struct timespec *t, struct timespec *) { if (!self) return 0; vtime += (double)t->tv_sec + 1e-3; point(1); return 0; }
int __wrap_sched_yield() { point(1); return 0; }
time_t __real_time(time_t *);
time_t
__wrap_time(time_t *p)
{
    if (!active) return __real_time(p);
    vtime += (double)rnd(4) / 10;
    point(2);
    time_t t = (time_t)(1000000 + vtime);
    if (p) *p = t;
    return t;
}
int __wrap_sigaction(int, const struct sigaction *, struct sigaction *) { return 0; }
}

struct Job {
    int  id, work, started = 0, finished = 0;
    int  pool = 0, group = -1, adds = 0;
    std::vector<int> nested;
};
struct Pool {
    threadpool       p = nullptr;
    int              n = 0;
    bool             destroyed = false;
    std::vector<int> fifo; // what was added to it since it was made
};
static std::vector<Job *> J;
static std::vector<int>   order, gsize, gin;
static Pool               P[2];
static void
job(void *a)
{
    Job *j = (Job *)a;
    if (P[j->pool].destroyed && bad.empty()) bad = "a job starts after the pool was destroyed";
    j->started++;
    order.push_back(j->id);
    if (j->group >= 0) {
        gin[j->group]++;
        while (gin[j->group] < gsize[j->group]) { vtime += 0.01; point(1); }
    }
    for (int i = 0; i < j->work; i++) { point(2); if (i < (int)j->nested.size()) thpool_add_work(P[j->pool].p, job, J[j->nested[i]]); }
    j->finished++;
}
// the jobs, and those they added in turn, have run
static void
settled(const std::vector<int> &fifo, const char *when)
{
    std::vector<int> todo = fifo;
    for (size_t i = 0; i < todo.size() && bad.empty(); i++) {
        Job *j = J[todo[i]];
        if (j->started != 1 || j->finished != 1) {
            char b[160];
            snprintf(b, sizeof b, "lost: %s, job %d had started %d times and finished %d times", when, j->id, j->started, j->finished);
            bad = b;
        }
        for (int x : j->nested) todo.push_back(x);
    }
}
enum Op { ADD, WAIT, IDLE, LOOK, START, RENEW };
typedef std::vector<std::array<int, 3>> Ops; // operation, pool, argument
struct Client {
    Ops       ops;
    pthread_t t;
    bool      on = false;
};
static std::vector<Client> K;
static void *
client(void *a)
{
    Client *         k = (Client *)a;
    std::vector<int> mine;
    for (auto &o : k->ops) {
        if (!bad.empty()) break;
        if (o[0] == ADD) {
            if (thpool_add_work(P[0].p, job, J[o[2]]) != 0) bad = "add: thpool_add_work fails";
            mine.push_back(o[2]);
            P[0].fifo.push_back(o[2]);
        }
        else if (o[0] == WAIT) {
            thpool_wait(P[0].p);
            settled(mine, "after a client's wait");
        }
        else
            for (int i = 0; i < o[2]; i++) point(1);
    }
    return nullptr;
}
static void
run(Case &c)
{
    int np = c.chance(1, 4) ? 2 : 1, nk = c.chance(1, 3) ? 1 + (int)c.below(2) : 0;
    for (int i = 0; i < np; i++) P[i].n = (int)c.weighted({1, 4, 4, 4, 2, 1});
    int n    = P[0].n;
    rate     = c.pick({1000u, 100u, 30u, 10u, 3u});
    spurious = c.chance(1, 3);
    bool lone = c.chance(1, 4); // destroy without waiting
    int  depth = 0;
    int  planned = 0;
    auto mk = [&](auto &&mk, int pool, int d) -> int {
        Job *j  = new Job;
        j->id   = (int)J.size();
        j->pool = pool;
        J.push_back(j);
        j->work = (int)c.below(6);
        planned++;
        if (d < 2 && c.chance(1, 5) && planned < 40) {
            int k = 1 + (int)c.below(3);
            if (j->work < k) j->work = k;
            for (int i = 0; i < k; i++) { int x = mk(mk, pool, d + 1); j->nested.push_back(x); depth = std::max(depth, d + 1); }
        }
        return j->id;
    };
    Ops ops;
    K.resize(nk);
    for (auto &k : K)
        c.list(1, 3, 6, [&](size_t) {
            switch (c.weighted({4, 3, 1})) {
                case 0: for (int i = 1 + (int)c.below(3); i; i--) { int id = mk(mk, 0, 0); k.ops.push_back({ADD, 0, id}); } break;
                case 1: if (n) k.ops.push_back({WAIT, 0, 0}); break;
                default: k.ops.push_back({IDLE, 0, (int)c.below(200)});
            }
        });
    int started = 0;
    c.list(1, 6, 16, [&](size_t) {
        int p = np > 1 && c.flip();
        switch (c.weighted({6, 3, 2, 1, 2, 3, 1})) {
            case 0: { int k = 1 + (int)c.below(4); for (int i = 0; i < k; i++) { int id = mk(mk, p, 0); ops.push_back({ADD, p, id}); } break; }
            case 1: if (P[p].n) ops.push_back({WAIT, p, 0}); break;
            case 2: ops.push_back({IDLE, p, (int)c.below(200)}); break;
            case 3: ops.push_back({LOOK, p, 0}); break;
            case 4: // jobs that need one another to run
                if (P[p].n > 1 && !lone && !nk) {
                    int k = 2 + (int)c.below(P[p].n - 1), g = (int)gsize.size();
                    gsize.push_back(k); gin.push_back(0);
                    for (int i = 0; i < k; i++) { int id = mk(mk, p, 2); J[id]->group = g; ops.push_back({ADD, p, id}); }
                }
                break;
            case 5: if (started < nk) ops.push_back({START, 0, started++}); break;
            default: if (np > 1) ops.push_back({RENEW, 1, (int)c.below(6)});
        }
    });
    while (started < nk) ops.push_back({START, 0, started++});
    rs = c.bits(32) * 2654435761u + 88172645463325252ull;
    for (int i = 0; i < 5; i++) rnd(2);
    limit = 3000000;
    Th *me = new Th;
    me->id = 0;
    sem_init(&me->go, 0, 0);
    T.push_back(me);
    self = me;
    c.note("%d threads, %zu jobs%s%s, switch at 1 in %u accesses\n", n, J.size(), gsize.empty() ? "" : ", some in groups", spurious ? ", spurious wake-ups" : "", rate);
    if (np > 1) c.note("another pool of %d threads\n", P[1].n);
    for (auto &k : K) {
        c.note("client:");
        for (auto &o : k.ops) o[0] == ADD ? c.note(" add %d", o[2]) : o[0] == WAIT ? c.note(" wait") : c.note(" idle");
        c.note("\n");
    }
    active = true;
    int  waits = 0;
    bool failed_init = false;
    auto renew = [&](int p) {
        P[p].p = thpool_init(P[p].n);
        P[p].fifo.clear();
        if (!P[p].p) { failed_init = true; throw Stop(); }
        P[p].destroyed = false;
    };
    auto look = [&](int p) {
        int w = thpool_num_threads_working(P[p].p);
        if (w < 0 || w > P[p].n) bad = "working: thpool_num_threads_working is out of range";
    };
    // ends a pool; what was added to it and never started is lost with it, all else must have run
    auto end = [&](int p) {
        if (P[p].n && !lone) { c.note("wait%s\n", p ? " (other)" : ""); thpool_wait(P[p].p); waits += !P[p].fifo.empty(); settled(P[p].fifo, "after the last wait"); }
        c.note("destroy%s\n", p ? " (other)" : "");
        thpool_destroy(P[p].p);
        P[p].destroyed = true;
        for (Job *j : J)
            if (j->pool == p && bad.empty() && (j->started > 1 || j->started != j->finished)) {
                char b[160];
                snprintf(b, sizeof b, "lost: after the pool was destroyed, job %d had started %d times and finished %d times", j->id, j->started, j->finished);
                bad = b;
            }
    };
    try {
        for (int i = 0; i < np; i++) renew(i);
        for (auto &o : ops) {
            int p = o[1];
            const char *w = p ? " (other)" : "";
            switch (o[0]) {
                case ADD:
                    c.note("add job %d%s%s%s\n", o[2], w, J[o[2]]->nested.empty() ? "" : " (adds jobs)", J[o[2]]->group >= 0 ? " (group)" : "");
                    if (thpool_add_work(P[p].p, job, J[o[2]]) != 0) bad = "add: thpool_add_work fails";
                    P[p].fifo.push_back(o[2]);
                    break;
                case WAIT: {
                    c.note("wait%s\n", w);
                    std::vector<int> before = P[p].fifo;
                    if (!P[p].n) break;
                    thpool_wait(P[p].p);
                    waits += !before.empty();
                    settled(before, "after a wait");
                    look(p);
                    break;
                }
                case IDLE:
                    c.note("idle %d\n", o[2]);
                    for (int i = 0; i < o[2]; i++) point(1);
                    break;
                case LOOK: c.note("look%s\n", w); look(p); break;
                case START:
                    c.note("start client %d\n", o[2]);
                    K[o[2]].on = true;
                    if (pthread_create(&K[o[2]].t, nullptr, client, &K[o[2]])) throw Stop();
                    break;
                default:
                    // groups count on the number of threads there was
                    c.note("renew the other pool\n");
                    end(1);
                    if (bad.empty()) renew(1);
            }
            if (!bad.empty()) throw Stop();
        }
        for (auto &k : K) if (k.on) pthread_join(k.t, nullptr);
        for (int p = 0; p < np && bad.empty(); p++) end(p);
        // the threads must be able to end without touching what was freed
        for (int i = 0; i < 2000; i++) { bool live = false; for (Th *t : T) live |= t->id && t->st != DONE; if (!live) break; point(1); }
        if (n == 1 && np == 1 && !nk && bad.empty()) {
            size_t k = 0; // one thread takes the jobs in the order they were added
            for (int id : order) if (k < P[0].fifo.size() && id == P[0].fifo[k]) k++;
            size_t ran = 0;
            for (int id : P[0].fifo) ran += J[id]->started;
            if (k != ran) bad = "order: one thread runs the jobs out of order";
        }
    }
    catch (Stop &) {
    }
    active = false;
    if (n > 1 && J.size() > 2 && waits) c.nontrivial();
    if (depth) c.label("jobs that add jobs");
    if (!gsize.empty()) c.label("jobs that need one another");
    if (lone) c.label("destroyed without waiting");
    if (np > 1) c.label("two pools");
    if (nk) c.label("concurrent clients");
    if (!bad.empty()) {
        std::string sig = bad.substr(0, bad.find(':'));
        if (sig.size() > 12) sig = "pool";
        c.fail(sig.c_str(), "%s", bad.c_str());
    }
    if (failed_init) c.fail("init", "thpool_init fails");
}
int
main(int argc, char **argv)
{
    pbt::Property p{"C29", "each case runs a pool of 0-5 threads under one generated schedule (switches at memory accesses and synchronisation points, spurious wake-ups) through a generated history of additions, waits and destruction, possibly with other threads that add and wait and with a second pool that comes and goes; non-trivial: several threads, at least three jobs and an effective wait", 9000, 400000, 1, 60, run};
    p.assumptions = {"threads are interleaved sequentially consistently", "pausing and resuming a pool is not generated"};
    return pbt::run_main(argc, argv, p);
}
