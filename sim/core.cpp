// See sim.hpp.  One OS thread; fibers; virtual time; message delivery chosen by a seeded PRNG.
#include "sim.hpp"
#include <dlfcn.h>
#include <fcntl.h>
#include <ftw.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>
#include <cerrno>
#include <csignal>
#include <deque>
#include <exception>
#include <fstream>
#include <grp.h>
#include <memory>
#include <time.h>
extern "C" {
#include "mercury.h"
#include "mercury_proc_string.h"
#include "mpi.h"
void __sanitizer_start_switch_fiber(void **, const void *, size_t);
void __sanitizer_finish_switch_fiber(void *, const void **, size_t *);
void __asan_unpoison_memory_region(void const volatile *, size_t);
}
using std::string;

// ---- data ------------------------------------------------------------------------------------------------------
typedef std::function<void()> Fn;
struct Fiber;
struct Group { // one MPI job
    int                 id, size;
    char                kind;
    std::vector<sim::Proc *> procs;
};
struct Comm { // one per communicator and job
    int              id;
    std::vector<sim::Proc *> members;
    struct Coll {
        int                        arrived = 0, left = 0;
        std::map<int, std::vector<char>> data; // contribution by rank
        std::vector<int>           extra;
        std::map<int, std::vector<int>> ints;
    };
    std::map<uint64_t, Coll>     coll;
    std::map<sim::Proc *, uint64_t> seq;
};
struct hg_addr { sim::Proc *proc; string text; };
struct Rpc { string name; hg_proc_cb_t in, out; hg_rpc_cb_t cb; bool noresp = false; };
struct hg_class { sim::Proc *proc; std::map<hg_id_t, Rpc> rpcs; };
struct hg_context { hg_class *cls; sim::Proc *proc; std::deque<Fn> done; };
struct BulkMem { // the memory a bulk handle describes, shared by its copies in other processes
    sim::Proc *owner;
    std::vector<std::pair<char *, hg_size_t>> segs;
    std::vector<void *> owned;
    hg_size_t total = 0;
    bool freed = false;
};
struct hg_bulk { std::shared_ptr<BulkMem> mem; sim::Proc *holder; int refs = 1; };
struct hg_handle {
    hg_info  info;
    sim::Proc *self; // process this side of the exchange belongs to
    Rpc *    rpc = nullptr;
    int      refs = 1;
    std::vector<char> in, out;
    bool     origin = true, responded = false, have_out = false;
    hg_handle *peer = nullptr; // origin's handle, for a target's
    hg_cb_t  cb = nullptr;
    void *   arg = nullptr;
    void *   data = nullptr;
    bool     in_flight = false;
};
struct hg_proc { hg_proc_op_t op; std::vector<char> *buf; size_t pos = 0; sim::Proc *self; };

namespace sim {
struct Proc {
    int    id, rank;
    Group *group;
    void * so;
    bool   dead = false;
    hg_class *  cls = nullptr;
    hg_context *ctx = nullptr;
    std::map<string, void *> syms;
    std::vector<Fiber *> fibers;
    uint32_t rnd = 1;
    std::map<int, Comm *> comms;
    int nextcomm = 3;
    bool mpi_init = false;
    const std::function<void(Proc &)> *body = nullptr;
};
} // namespace sim
using sim::Proc;

struct Fiber {
    int        id;
    Proc *     proc;
    ucontext_t uc;
    char *     stack = nullptr;
    size_t     ssz = 0;
    void *     fake = nullptr;
    Fn         entry;
    bool       done = false, daemon = false, fresh = true;
    std::function<bool()> cond; // runnable when it holds (empty: runnable)
    double     until = -1;      // or when this time comes
    bool       timed_out = false;
    const char *what = "";
    uint64_t   prio = 0;
    void *     result = nullptr;
    bool       ready(double now) const { return !done && !proc->dead && (!cond || cond() || (until >= 0 && now >= until)); }
};
struct Event { uint64_t seq; Fn fn; Proc *dst; };

static struct {
    pbt::Case *c = nullptr;
    string     dir, root;
    double     now = 1.6e9;
    uint64_t   rng[2];
    bool       fifo = true, pct = false, preempt = false;
    std::vector<Fiber *> fibers;
    std::map<uint64_t, std::deque<Event>> chan;
    std::map<uint64_t, uint64_t> chanprio;
    uint64_t   seq = 0, nextchan = 1u << 20;
    Fiber *    cur = nullptr;
    ucontext_t main;
    void *     mainfake = nullptr;
    const void *mainstk = nullptr;
    size_t     mainsz = 0;
    std::exception_ptr err;
    string     exit_msg;
    bool       exited = false;
    std::vector<Group *> groups;
    int        usedS = 0, usedC = 0;
    sim::Stats st{};
    std::vector<string> perr;
    uint64_t   rrobin = 0;
    double     lastact = 0;
    uint64_t   idle = 0;
    std::vector<double> rates; // processor time per second of each server
    unsigned   tick = 0; // waiting for requests ends after so many ms without one, at most
    int        store = 0;      // what happens when the budget of checkpoint file operations is used up: 0 nothing, 1 everything stops, 2 no space
    uint64_t   budget = 0, spent = 0;
} W;
extern "C" const char *
__asan_default_options()
{
    return "detect_stack_use_after_return=0:detect_leaks=0:detect_odr_violation=0:allocator_may_return_null=1:max_allocation_size_mb=4096";
}
static std::vector<void *> soS, soC;
static string              g_root;
static pid_t               g_owner;

static uint64_t
rnd()
{
    uint64_t a = W.rng[0], b = W.rng[1];
    W.rng[0] = b;
    a ^= a << 23;
    W.rng[1] = a ^ b ^ (a >> 17) ^ (b >> 26);
    return W.rng[1] + b;
}
static uint64_t below(uint64_t n) { return n ? rnd() % n : 0; }

// The C library's own function: the sanitizer's wrapper clears the shadow of the whole stack at every switch, which the announcements around each
// switch make unnecessary.
static int (*g_swap)(ucontext_t *, const ucontext_t *) = [] {
    void *l = dlopen("libc.so.6", RTLD_NOW), *f = l ? dlsym(l, "swapcontext") : nullptr;
    return f ? (int (*)(ucontext_t *, const ucontext_t *))f : swapcontext;
}();

// ---- fibers ----------------------------------------------------------------------------------------------------
static void
trampoline()
{
    const void *b;
    size_t      s;
    __sanitizer_finish_switch_fiber(nullptr, &b, &s);
    if (!W.mainstk) { W.mainstk = b; W.mainsz = s; }
    Fiber *f = W.cur;
    try {
        f->entry();
    }
    catch (...) {
        if (!W.err) W.err = std::current_exception();
    }
    f->done = true;
    W.cur   = nullptr;
    __sanitizer_start_switch_fiber(nullptr, W.mainstk, W.mainsz);
    g_swap(&f->uc, &W.main);
    abort();
}
static Fiber *
new_fiber(Proc *p, Fn fn)
{
    Fiber *f = new Fiber;
    f->id    = (int)W.fibers.size();
    f->proc  = p;
    f->entry = std::move(fn);
    f->ssz   = 8 << 20;
    f->stack = (char *)mmap(nullptr, f->ssz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    mprotect(f->stack, 4096, PROT_NONE);
    getcontext(&f->uc);
    f->uc.uc_stack.ss_sp   = f->stack;
    f->uc.uc_stack.ss_size = f->ssz;
    f->uc.uc_link          = nullptr;
    makecontext(&f->uc, trampoline, 0);
    f->prio = rnd();
    W.fibers.push_back(f);
    p->fibers.push_back(f);
    return f;
}
// run f until it gives up control
static void
resume(Fiber *f)
{
    Fiber *prev = W.cur;
    W.st.switches++;
    W.cur = f;
    if (prev) { // nested start (new thread run at once): come back to the scheduler is not possible from here
        W.cur = prev;
        return;
    }
    __sanitizer_start_switch_fiber(&W.mainfake, f->stack, f->ssz);
    g_swap(&W.main, &f->uc);
    __sanitizer_finish_switch_fiber(W.mainfake, nullptr, nullptr);
    W.cur = nullptr;
}
static void
to_main()
{
    Fiber *f = W.cur;
    __sanitizer_start_switch_fiber(&f->fake, W.mainstk, W.mainsz);
    g_swap(&f->uc, &W.main);
    __sanitizer_finish_switch_fiber(f->fake, nullptr, nullptr);
}
static bool // false when the time came first
block(const char *what, std::function<bool()> cond, double until = -1)
{
    Fiber *f = W.cur;
    if (!f) { // outside the simulation nothing can change
        return cond && cond();
    }
    f->what  = what;
    f->cond  = cond;
    f->until = until;
    to_main();
    bool ok  = !f->cond || f->cond();
    f->cond  = nullptr;
    f->until = -1;
    f->what  = "";
    return ok;
}
static void
yield_()
{
    if (W.cur) block("yield", [] { return true; });
}
[[noreturn]] static void
die(const string &m)
{
    if (!W.exited) { W.exited = true; W.exit_msg = m; }
    if (W.cur) for (;;) block("dead", [] { return false; });
    throw pbt::Failure{"process-exit", m};
}
[[noreturn]] static void
lose_()
{
    for (Group *g : W.groups) for (Proc *p : g->procs) p->dead = true;
    for (;;) block("lost", [] { return false; });
}
static string
where()
{
    string s;
    for (Fiber *f : W.fibers)
        if (!f->done && !f->proc->dead) s += string(1, f->proc->group->kind) + std::to_string(f->proc->rank) + ":" + f->what + " ";
    return s;
}
static void
check_errors()
{
    if (W.err) { auto e = W.err; W.err = nullptr; std::rethrow_exception(e); }
    if (W.exited) { W.exited = false; W.c->fail("process-exit", "%s", W.exit_msg.c_str()); }
}
// one scheduling step; false when nothing can run without time passing
static bool
step()
{
    std::vector<Fiber *> rf;
    for (Fiber *f : W.fibers) if (f->ready(W.now)) rf.push_back(f);
    // a channel's head can be delivered; one whose process is gone is dropped
    std::vector<uint64_t> ch;
    for (auto it = W.chan.begin(); it != W.chan.end();) {
        while (!it->second.empty() && it->second.front().dst->dead) it->second.pop_front();
        if (it->second.empty()) it = W.chan.erase(it);
        else { ch.push_back(it->first); ++it; }
    }
    size_t n = rf.size() + ch.size();
    if (!n) return false;
    size_t k;
    if (W.fifo) {
        k = n;
        uint64_t best = ~0ull;
        for (size_t i = 0; i < ch.size(); i++) if (W.chan[ch[i]].front().seq < best) { best = W.chan[ch[i]].front().seq; k = rf.size() + i; }
        if (k == n) k = W.rrobin++ % rf.size();
    }
    else if (W.pct) {
        if (below(40) == 0) { if (!rf.empty()) rf[below(rf.size())]->prio = rnd(); if (!ch.empty()) W.chanprio[ch[below(ch.size())]] = rnd(); }
        k = 0;
        uint64_t best = 0;
        for (size_t i = 0; i < n; i++) {
            uint64_t p = i < rf.size() ? rf[i]->prio : (W.chanprio.count(ch[i - rf.size()]) ? W.chanprio[ch[i - rf.size()]] : (W.chanprio[ch[i - rf.size()]] = rnd()));
            if (p >= best) { best = p; k = i; }
        }
        if (k < rf.size()) rf[k]->prio = rf[k]->prio / 2 + rnd() / 4; // no starvation by polling
    }
    else k = below(n);
    if (k < rf.size()) {
        resume(rf[k]);
    }
    else {
        auto &q = W.chan[ch[k - rf.size()]];
        Event e = std::move(q.front());
        q.pop_front();
        for (auto &o : W.chan) if (!o.second.empty() && o.second.front().seq < e.seq) { W.st.reordered++; break; }
        W.st.deliveries++;
        W.lastact = W.now;
        W.idle    = 0;
        e.fn();
    }
    check_errors();
    return true;
}
static bool
advance_clock(double limit)
{
    double t = -1;
    for (Fiber *f : W.fibers)
        if (!f->done && !f->proc->dead && f->until >= 0 && (t < 0 || f->until < t)) t = f->until;
    if (t < 0) return false;
    if (limit >= 0 && t > limit) { W.now = std::max(W.now, limit); return false; }
    if (t > W.now) W.now = t;
    return true;
}
static void
run_until(const std::function<bool()> &goal, const char *what)
{
    uint64_t steps = 0;
    W.lastact = W.now;
    while (!goal()) {
        if (++steps > 3000000) W.c->fail("livelock", "%s: no end after %llu steps: %s", what, (unsigned long long)steps, where().c_str());
        if (W.preempt && below(16) == 0) { // time passes while others are busy
            double t = -1;
            for (Fiber *f : W.fibers)
                if (!f->done && !f->proc->dead && f->until >= 0 && (t < 0 || f->until < t)) t = f->until;
            if (t > W.now && t <= W.now + 1e-3) W.now = t;
        }
        if (step()) continue;
        for (Fiber *f : W.fibers) if (!f->done && !f->proc->dead && !strcmp(f->what, "idle")) W.lastact = W.now; // meant to wait
        if (W.now - W.lastact > 300 || !advance_clock(-1))
            W.c->fail("hang", "%s: nothing can make progress: %s", what, where().c_str());
    }
}

// ---- public ----------------------------------------------------------------------------------------------------
namespace sim {
static int
rmfn(const char *p, const struct stat *, int, struct FTW *)
{
    return ::remove(p);
}
static void
cleanup()
{
    if (getpid() == g_owner && !g_root.empty() && g_root.compare(0, 12, "/tmp/pdcsim.") == 0) nftw(g_root.c_str(), rmfn, 16, FTW_DEPTH | FTW_PHYS);
}
static string
here()
{
    const char *d = getenv("VERIF_BUILD");
    if (d) return d;
    d = getenv("VERIF_DIR");
    return string(d ? d : "/verif") + "/build";
}
void
preload(int ns, int nc)
{
    char t[] = "/tmp/pdcsim.XXXXXX";
    if (!mkdtemp(t)) { perror("mkdtemp"); exit(2); }
    chmod(t, 0755);
    g_root  = t;
    g_owner = getpid();
    atexit(cleanup);
    mkdir((g_root + "/cases").c_str(), 0777);
    chmod((g_root + "/cases").c_str(), 0777);
    for (int k = 0; k < 2; k++)
        for (int i = 0; i < (k ? nc : ns); i++) {
            string src = here() + (k ? "/libpdc_client.so" : "/libpdc_server.so");
            string dst = g_root + (k ? "/client" : "/server") + std::to_string(i) + ".so";
            std::ifstream a(src, std::ios::binary);
            std::ofstream b(dst, std::ios::binary);
            b << a.rdbuf();
            b.close();
            void *h = dlopen(dst.c_str(), RTLD_LAZY | RTLD_LOCAL);
            if (!h) { fprintf(stderr, "dlopen: %s\n", dlerror()); exit(2); }
            (k ? soC : soS).push_back(h);
        }
}
// a case that runs away must not take the machine's memory with it
static void
watch(int)
{
    char b[64];
    int  e  = errno, fd = open("/proc/self/statm", O_RDONLY), n = fd < 0 ? -1 : (int)read(fd, b, sizeof b - 1);
    if (fd >= 0) close(fd);
    if (n > 0) {
        b[n] = 0;
        const char *q = strchr(b, ' ');
        if (q && atol(q) > (3l << 30) / 4096) {
            static const char m[] = "sim: the case uses more than 3 GB of memory\n";
            if (write(2, m, sizeof m - 1) < 0) _exit(3);
            signal(SIGABRT, SIG_DFL);
            abort();
        }
    }
    errno = e;
}
void
begin(pbt::Case &c)
{
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = watch;
    sa.sa_flags   = SA_RESTART;
    sigaction(SIGPROF, &sa, nullptr);
    struct itimerval it = {{0, 200000}, {0, 200000}};
    setitimer(ITIMER_PROF, &it, nullptr);
    W.c           = &c;
    uint64_t seed = c.below(1u << 20);
    W.fifo        = seed == 0;
    W.pct         = (seed & 3) == 3;
    W.preempt     = (seed & 4) != 0;
    W.rng[0]      = seed * 0x9e3779b97f4a7c15ull + 1;
    W.rng[1]      = seed ^ 0xd1b54a32d192ed03ull;
    for (int i = 0; i < 8; i++) rnd();
    char d[256];
    snprintf(d, sizeof d, "%s/cases/%d", g_root.c_str(), (int)getpid());
    W.root = d;
    mkdir(d, 0777);
    chmod(d, 0777);
    if (chdir(d)) { perror("chdir"); _exit(2); }
    W.dir = d;
    if (getuid() == 0) {
        if (setgroups(0, nullptr) || setgid(65534) || setuid(65534)) { perror("setuid"); _exit(2); }
    }
    setenv("HOME", d, 1);
    setenv("PDC_TMPDIR", (W.dir + "/tmp").c_str(), 1);
    setenv("PDC_DATA_LOC", (W.dir + "/data").c_str(), 1);
}
void
end()
{
    for (Group *g : W.groups) for (Proc *p : g->procs) p->dead = true;
    if (chdir("/") == 0 && W.root.compare(0, 12, "/tmp/pdcsim.") == 0) nftw(W.root.c_str(), rmfn, 16, FTW_DEPTH | FTW_PHYS);
}
static Group *
new_group(char kind, int n)
{
    Group *g = new Group{(int)W.groups.size(), n, kind, {}};
    for (int i = 0; i < n; i++) {
        Proc *p  = new Proc;
        p->id    = g->id * 16 + i;
        p->rank  = i;
        p->group = g;
        auto &v  = kind == 's' ? soS : soC;
        int & u  = kind == 's' ? W.usedS : W.usedC;
        if (u >= (int)v.size()) { fprintf(stderr, "sim: not enough library copies\n"); _exit(2); }
        p->so = v[u++];
        g->procs.push_back(p);
    }
    Comm *w = new Comm{MPI_COMM_WORLD, g->procs, {}, {}};
    for (Proc *p : g->procs) {
        p->comms[MPI_COMM_WORLD] = w;
        p->comms[MPI_COMM_SELF]  = new Comm{MPI_COMM_SELF, {p}, {}, {}};
    }
    W.groups.push_back(g);
    return g;
}
void *
symbol(Proc &p, const char *name)
{
    void *&s = p.syms[name];
    if (!s) s = dlsym(p.so, name);
    if (!s) { fprintf(stderr, "sim: no symbol %s\n", name); _exit(2); }
    return s;
}
void
servers(int n, bool restart)
{
    Group *g = new_group('s', n);
    for (Proc *p : g->procs)
        new_fiber(p, [p, restart] {
            auto fn = (int (*)(int, char **))symbol(*p, "server_run");
            static char a0[] = "pdc_server", a1[] = "restart";
            static char *av[] = {a0, a1, nullptr};
            static char *av1[] = {a0, nullptr};
            fn(restart ? 2 : 1, restart ? av : av1);
        });
    // ready once every server waits for requests
    run_until([g] {
        for (Proc *p : g->procs) {
            Fiber *f = p->fibers[0];
            if (f->done) return true;
            if (strcmp(f->what, "progress") || !p->ctx) return false;
        }
        return true;
    }, "starting the servers");
    settle();
}
bool
servers_alive()
{
    for (Group *g : W.groups)
        if (g->kind == 's') for (Proc *p : g->procs) if (!p->dead && !p->fibers[0]->done) return true;
    return false;
}
void
clients(int n, const std::function<void(Proc &)> &body)
{
    Group *g = new_group('c', n);
    for (Proc *p : g->procs) new_fiber(p, [p, &body] { body(*p); });
    run_until([g] {
        for (Proc *p : g->procs) if (!p->dead && !p->fibers[0]->done) return false;
        return true;
    }, "clients");
    for (Proc *p : g->procs) p->dead = true;
}
void
settle(double seconds)
{
    double   until = W.now + seconds;
    uint64_t steps = 0;
    for (;;) {
        bool busy = !W.chan.empty();
        for (Fiber *f : W.fibers) if (f->ready(W.now)) busy = true;
        if (busy) {
            if (++steps > 500000) W.c->fail("livelock", "settling: %s", where().c_str());
            step();
            continue;
        }
        if (W.now >= until || !advance_clock(until)) break;
    }
}
void
kill_servers()
{
    for (Group *g : W.groups) if (g->kind == 's') for (Proc *p : g->procs) p->dead = true;
}
void
await_servers_end()
{
    run_until([] {
        for (Group *g : W.groups)
            if (g->kind == 's') for (Proc *p : g->procs) if (!p->dead && !p->fibers[0]->done) return false;
        return true;
    }, "servers ending");
    for (Group *g : W.groups) if (g->kind == 's') for (Proc *p : g->procs) p->dead = true;
}
void lose() { lose_(); }
void cpu_rates(const std::vector<double> &r) { W.rates = r; }
void busy(unsigned ms) { W.tick = ms; }
void crash_after(uint64_t n) { W.store = 1; W.budget = n; }
void no_space_after(uint64_t n) { W.store = 2; W.budget = n; }
void storage_ok() { W.store = 0; }
uint64_t storage_work() { return W.spent; }
int rank(Proc &p) { return p.rank; }
Proc &current() { return *W.cur->proc; }
const string &dir() { return W.dir; }
double now() { return W.now; }
void advance(double s) { block("idle", [] { return false; }, W.now + s); }
void yield() { yield_(); }
const Stats &stats() { return W.st; }
const std::vector<string> &protocol_errors() { return W.perr; }
} // namespace sim

static Proc *
me()
{
    if (!W.cur) { fprintf(stderr, "sim: call outside a process\n"); abort(); }
    return W.cur->proc;
}
static void
perr(const char *fmt, ...)
{
    char    b[400];
    va_list a;
    va_start(a, fmt);
    vsnprintf(b, sizeof b, fmt, a);
    va_end(a);
    W.perr.push_back(b);
    fprintf(stderr, "sim: protocol: %s\n", b);
}
static void
post(uint64_t channel, Proc *dst, Fn fn)
{
    W.chan[channel].push_back(Event{W.seq++, std::move(fn), dst});
}
static uint64_t chan(int kind, Proc *a, Proc *b) { return (uint64_t)kind << 60 | (uint64_t)a->id << 20 | b->id; }
static void
complete(Proc *p, Fn fn)
{
    if (p->ctx) p->ctx->done.push_back(std::move(fn));
}

// ---- Mercury ---------------------------------------------------------------------------------------------------
extern "C" {
hg_class_t *
HG_Init_opt(const char *, hg_bool_t, const struct hg_init_info *)
{
    Proc *p = me();
    p->cls  = new hg_class{p, {}};
    return p->cls;
}
hg_class_t *HG_Init(const char *i, hg_bool_t l) { return HG_Init_opt(i, l, nullptr); }
hg_return_t HG_Finalize(hg_class_t *) { return HG_SUCCESS; }
void HG_Cleanup(void) {}
hg_return_t
HG_Version_get(unsigned *a, unsigned *b, unsigned *c)
{
    *a = 2; *b = 0; *c = 0;
    return HG_SUCCESS;
}
hg_context_t *
HG_Context_create(hg_class_t *c)
{
    return c->proc->ctx = new hg_context{c, c->proc, {}};
}
hg_return_t HG_Context_destroy(hg_context_t *) { return HG_SUCCESS; }
hg_class_t *HG_Context_get_class(hg_context_t *c) { return c->cls; }
hg_return_t HG_Class_set_handle_create_callback(hg_class_t *, hg_return_t (*)(hg_handle_t, void *), void *) { return HG_SUCCESS; }
hg_id_t
HG_Register_name(hg_class_t *c, const char *n, hg_proc_cb_t in, hg_proc_cb_t out, hg_rpc_cb_t cb)
{
    uint64_t h = 1469598103934665603ull;
    for (const char *q = n; *q; q++) h = (h ^ (unsigned char)*q) * 1099511628211ull;
    c->rpcs[h] = Rpc{n, in, out, cb, false};
    return h;
}
hg_return_t
HG_Registered_disable_response(hg_class_t *c, hg_id_t id, hg_bool_t d)
{
    c->rpcs[id].noresp = d;
    return HG_SUCCESS;
}
static string addr_text(Proc *p) { return "sim+" + string(1, p->group->kind) + "://" + std::to_string(p->group->id) + ":" + std::to_string(p->rank); }
hg_return_t
HG_Addr_lookup(hg_context_t *ctx, hg_cb_t cb, void *arg, const char *name, hg_op_id_t *)
{
    Proc *found = nullptr, *p = me();
    for (Group *g : W.groups) for (Proc *q : g->procs) if (addr_text(q) == name) found = q;
    hg_addr *a = found ? new hg_addr{found, name} : nullptr;
    post(chan(3, p, p), p, [ctx, cb, arg, a, p] {
        complete(p, [cb, arg, a] {
            hg_cb_info i{};
            i.arg = arg; i.type = HG_CB_LOOKUP; i.ret = a ? HG_SUCCESS : HG_HOSTUNREACH;
            i.info.lookup.addr = a;
            cb(&i);
        });
    });
    return HG_SUCCESS;
}
hg_return_t
HG_Addr_self(hg_class_t *c, hg_addr_t *a)
{
    *a = new hg_addr{c->proc, addr_text(c->proc)};
    return HG_SUCCESS;
}
hg_bool_t HG_Addr_cmp(hg_class_t *, hg_addr_t a, hg_addr_t b) { return a == b || (a && b && a->proc == b->proc && a->text == b->text); }
hg_return_t HG_Addr_dup(hg_class_t *, hg_addr_t a, hg_addr_t *b) { *b = new hg_addr(*a); return HG_SUCCESS; }
hg_return_t HG_Addr_free(hg_class_t *, hg_addr_t) { return HG_SUCCESS; } // kept: other handles may still name it
hg_return_t
HG_Addr_to_string(hg_class_t *, char *b, hg_size_t *n, hg_addr_t a)
{
    if (b && *n > a->text.size()) strcpy(b, a->text.c_str());
    else if (b) return HG_OVERFLOW;
    *n = a->text.size() + 1;
    return HG_SUCCESS;
}
hg_return_t
HG_Create(hg_context_t *ctx, hg_addr_t a, hg_id_t id, hg_handle_t *out)
{
    auto it = ctx->cls->rpcs.find(id);
    if (it == ctx->cls->rpcs.end()) return HG_NOENTRY;
    hg_handle *h = new hg_handle;
    h->info      = hg_info{ctx->cls, ctx, a, 0, id};
    h->self      = ctx->proc;
    h->rpc       = &it->second;
    *out         = h;
    return HG_SUCCESS;
}
hg_return_t
HG_Destroy(hg_handle_t h)
{
    if (!h) return HG_INVALID_ARG;
    if (h->refs <= 0) perr("handle of %s destroyed once too often", h->rpc->name.c_str());
    h->refs--;
    return HG_SUCCESS;
}
hg_return_t HG_Ref_incr(hg_handle_t h) { h->refs++; return HG_SUCCESS; }
const struct hg_info *HG_Get_info(hg_handle_t h) { return &h->info; }
hg_return_t HG_Set_data(hg_handle_t h, void *d, void (*)(void *)) { h->data = d; return HG_SUCCESS; }
void *HG_Get_data(hg_handle_t h) { return h->data; }

static hg_return_t
run_proc(hg_proc_cb_t cb, hg_proc_op_t op, std::vector<char> &buf, void *data, Proc *p)
{
    if (!cb) return HG_SUCCESS;
    hg_proc pr{op, &buf, 0, p};
    return cb(&pr, data);
}
} // extern "C"
namespace sim {
static Proc &in_group(char kind, int i)
{
    for (auto g = W.groups.rbegin(); g != W.groups.rend(); ++g) if ((*g)->kind == kind) return *(*g)->procs.at(i);
    die("no such process");
}
Proc &server(int i) { return in_group('s', i); }
Proc &client(int i) { return in_group('c', i); }
std::vector<std::string>
rpc_names(Proc &p)
{
    std::vector<std::string> r;
    if (p.cls) for (auto &e : p.cls->rpcs) r.push_back(e.second.name);
    std::sort(r.begin(), r.end());
    return r;
}
int
rpc_code(Proc &p, const std::string &name, bool out, int op, std::vector<char> &buf, size_t &used, void *data)
{
    for (auto &e : p.cls->rpcs)
        if (e.second.name == name) {
            hg_proc_cb_t cb = out ? e.second.out : e.second.in;
            if (!cb) return -1;
            hg_proc pr{op == 0 ? HG_ENCODE : op == 1 ? HG_DECODE : HG_FREE, &buf, 0, &p};
            int     r = cb(&pr, data);
            used      = pr.pos;
            return r;
        }
    return -1;
}
void *
bulk_of(Proc &p, const std::vector<std::pair<void *, size_t>> &segs)
{
    std::vector<void *>    q;
    std::vector<hg_size_t> n;
    for (auto &s : segs) { q.push_back(s.first); n.push_back(s.second); }
    hg_bulk_t b = nullptr;
    HG_Bulk_create(p.cls, (uint32_t)q.size(), q.data(), n.data(), 3, &b);
    return b;
}
std::vector<std::pair<void *, size_t>>
bulk_segs(void *b)
{
    std::vector<std::pair<void *, size_t>> r;
    for (auto &s : ((hg_bulk *)b)->mem->segs) r.push_back({s.first, s.second});
    return r;
}
} // namespace sim
extern "C" {
hg_return_t HG_Get_input(hg_handle_t h, void *d) { return run_proc(h->rpc->in, HG_DECODE, h->in, d, h->self); }
hg_return_t HG_Free_input(hg_handle_t h, void *d) { return run_proc(h->rpc->in, HG_FREE, h->in, d, h->self); }
hg_return_t
HG_Get_output(hg_handle_t h, void *d)
{
    if (!h->have_out) return HG_FAULT;
    return run_proc(h->rpc->out, HG_DECODE, h->out, d, h->self);
}
hg_return_t HG_Free_output(hg_handle_t h, void *d) { return run_proc(h->rpc->out, HG_FREE, h->out, d, h->self); }

static void
forward_done(hg_handle *h, hg_return_t ret)
{
    hg_cb_t cb  = h->cb;
    void *  arg = h->arg;
    h->in_flight = false;
    if (!cb) return;
    hg_cb_info i{};
    i.arg = arg; i.type = HG_CB_FORWARD; i.ret = ret;
    i.info.forward.handle = h;
    cb(&i);
}
hg_return_t
HG_Forward(hg_handle_t h, hg_cb_t cb, void *arg, void *in)
{
    if (!h) return HG_INVALID_ARG;
    if (h->in_flight) { perr("handle of %s forwarded while in use", h->rpc->name.c_str()); return HG_BUSY; }
    if (h->refs <= 0) perr("destroyed handle of %s forwarded", h->rpc->name.c_str());
    Proc *src = h->self, *dst = h->info.addr ? h->info.addr->proc : nullptr;
    if (!dst) return HG_INVALID_ARG;
    h->in.clear();
    hg_return_t r = run_proc(h->rpc->in, HG_ENCODE, h->in, in, src);
    if (r != HG_SUCCESS) return r;
    W.st.rpcs++;
    h->cb = cb; h->arg = arg; h->in_flight = true; h->have_out = false;
    auto    bytes = h->in;
    hg_id_t id    = h->info.id;
    post(chan(1, src, dst), dst, [h, src, dst, id, bytes] {
        if (!dst->cls || !dst->ctx) { perr("request to a process that is not listening"); return; }
        auto it = dst->cls->rpcs.find(id);
        if (it == dst->cls->rpcs.end()) { perr("request %s is not registered at its target", h->rpc->name.c_str()); return; }
        hg_handle *t = new hg_handle;
        t->info      = hg_info{dst->cls, dst->ctx, new hg_addr{src, addr_text(src)}, 0, id};
        t->self      = dst;
        t->rpc       = &it->second;
        t->origin    = false;
        t->peer      = h;
        t->in        = bytes;
        complete(dst, [t] { t->rpc->cb(t); });
    });
    if (h->rpc->noresp) complete(src, [h] { forward_done(h, HG_SUCCESS); });
    return HG_SUCCESS;
}
hg_return_t
HG_Respond(hg_handle_t t, hg_cb_t cb, void *arg, void *out)
{
    if (t->origin) { perr("answer through the asker's handle of %s", t->rpc->name.c_str()); return HG_INVALID_ARG; }
    if (t->responded) { perr("%s answered twice", t->rpc->name.c_str()); return HG_FAULT; }
    if (t->refs <= 0) perr("%s answered through a destroyed handle", t->rpc->name.c_str());
    std::vector<char> b;
    hg_return_t       r = run_proc(t->rpc->out, HG_ENCODE, b, out, t->self);
    if (r != HG_SUCCESS) return r;
    t->responded = true;
    hg_handle *h = t->peer;
    Proc *     s = t->self;
    if (!t->rpc->noresp)
        post(chan(2, s, h->self), h->self, [h, b] {
            h->out      = b;
            h->have_out = true;
            complete(h->self, [h] { forward_done(h, HG_SUCCESS); });
        });
    if (cb)
        complete(s, [t, cb, arg] {
            hg_cb_info i{};
            i.arg = arg; i.type = HG_CB_RESPOND; i.ret = HG_SUCCESS;
            i.info.respond.handle = t;
            cb(&i);
        });
    return HG_SUCCESS;
}
hg_return_t
HG_Progress(hg_context_t *ctx, unsigned ms)
{
    if (!ctx->done.empty()) {
        if (!W.fifo && below(4) == 0) yield_();
        return HG_SUCCESS;
    }
    if (W.tick > 0 && ctx->proc->group->kind == 's' && ms > W.tick) ms = W.tick;
    block("progress", [ctx] { return !ctx->done.empty(); }, ms >= 100000 ? -1 : W.now + ms / 1000.0);
    return ctx->done.empty() ? HG_TIMEOUT : HG_SUCCESS;
}
hg_return_t
HG_Trigger(hg_context_t *ctx, unsigned, unsigned max, unsigned *n)
{
    unsigned k = 0;
    while (k < max && !ctx->done.empty()) {
        Fn f = std::move(ctx->done.front());
        ctx->done.pop_front();
        f();
        k++;
    }
    if (n) *n = k;
    return k ? HG_SUCCESS : HG_TIMEOUT;
}
// ---- bulk
hg_return_t
HG_Bulk_create(hg_class_t *cls, uint32_t n, void **p, const hg_size_t *sz, uint8_t, hg_bulk_t *out)
{
    if (!n || !sz) return HG_INVALID_ARG;
    auto m   = std::make_shared<BulkMem>();
    m->owner = cls->proc;
    for (uint32_t i = 0; i < n; i++) {
        void *q = p ? p[i] : nullptr;
        if (!q && sz[i]) {
            if (p) return HG_INVALID_ARG;
            q = calloc(1, sz[i]);
            m->owned.push_back(q);
        }
        if (!sz[i]) continue; // Mercury keeps no empty segments
        m->segs.push_back({(char *)q, sz[i]});
        m->total += sz[i];
    }
    *out = new hg_bulk{m, cls->proc};
    return HG_SUCCESS;
}
hg_return_t
HG_Bulk_free(hg_bulk_t b)
{
    if (!b) return HG_SUCCESS;
    if (b->refs <= 0) { perr("bulk handle freed once too often"); return HG_INVALID_ARG; }
    if (--b->refs == 0 && b->mem && b->mem->owner == b->holder) {
        b->mem->freed = true;
        for (void *q : b->mem->owned) free(q);
    }
    return HG_SUCCESS;
}
hg_return_t HG_Bulk_ref_incr(hg_bulk_t b) { b->refs++; return HG_SUCCESS; }
hg_return_t
HG_Bulk_access(hg_bulk_t b, hg_size_t off, hg_size_t size, uint8_t, uint32_t maxn, void **p, hg_size_t *s, uint32_t *n)
{
    uint32_t k = 0;
    if (b->refs <= 0) perr("freed bulk handle used");
    for (auto &g : b->mem->segs) {
        if (!size || k >= maxn) break;
        if (off >= g.second) { off -= g.second; continue; }
        hg_size_t l = std::min(size, g.second - off);
        if (p) p[k] = g.first + off;
        if (s) s[k] = l;
        k++;
        size -= l;
        off = 0;
    }
    if (n) *n = k;
    return HG_SUCCESS;
}
hg_size_t HG_Bulk_get_size(hg_bulk_t b) { return b->mem->total; }
uint32_t  HG_Bulk_get_segment_count(hg_bulk_t b) { return (uint32_t)b->mem->segs.size(); }
static char *
seg_at(BulkMem &m, hg_size_t off, hg_size_t &left)
{
    for (auto &g : m.segs) {
        if (off < g.second) { left = g.second - off; return g.first + off; }
        off -= g.second;
    }
    return nullptr;
}
hg_return_t
HG_Bulk_transfer(hg_context_t *ctx, hg_cb_t cb, void *arg, hg_bulk_op_t op, hg_addr_t, hg_bulk_t ob, hg_size_t oo,
                 hg_bulk_t lb, hg_size_t lo, hg_size_t size, hg_op_id_t *)
{
    if (!ob || !lb) return HG_INVALID_ARG;
    if (ob->refs <= 0 || lb->refs <= 0) perr("transfer through a freed bulk handle");
    if (oo + size > ob->mem->total || lo + size > lb->mem->total) return HG_OVERFLOW;
    Proc *p = ctx->proc;
    W.st.bulks++;
    auto  om = ob->mem, lm = lb->mem;
    post(W.nextchan++, p, [=] {
        hg_return_t ret = HG_SUCCESS;
        if (om->freed || lm->freed) { perr("bulk memory released during a transfer"); ret = HG_FAULT; }
        else if (om->owner->dead) ret = HG_HOSTUNREACH;
        else {
            hg_size_t a = oo, b = lo, n = size;
            while (n) {
                hg_size_t la = 0, lb2 = 0;
                char *    pa = seg_at(*om, a, la), *pb = seg_at(*lm, b, lb2);
                hg_size_t k = std::min(n, std::min(la, lb2));
                if (op == HG_BULK_PUSH) memmove(pa, pb, k);
                else memmove(pb, pa, k);
                a += k; b += k; n -= k;
            }
        }
        complete(p, [=] {
            hg_cb_info i{};
            i.arg = arg; i.type = HG_CB_BULK; i.ret = ret;
            i.info.bulk.op = op; i.info.bulk.origin_handle = ob; i.info.bulk.local_handle = lb; i.info.bulk.size = size;
            cb(&i);
        });
    });
    return HG_SUCCESS;
}
const char *HG_Error_to_string(hg_return_t) { return "sim error"; }
// ---- encoding
hg_proc_op_t hg_proc_get_op(hg_proc_t p) { return p->op; }
hg_return_t
hg_proc_memcpy(hg_proc_t p, void *d, hg_size_t n)
{
    if (p->op == HG_ENCODE) p->buf->insert(p->buf->end(), (char *)d, (char *)d + n);
    else if (p->op == HG_DECODE) {
        if (p->pos + n > p->buf->size()) return HG_OVERFLOW;
        memcpy(d, p->buf->data() + p->pos, n);
        p->pos += n;
    }
    return HG_SUCCESS;
}
static hg_return_t
proc_string(hg_proc_t p, char **s)
{
    uint64_t    n;
    hg_return_t r;
    switch (p->op) {
        case HG_ENCODE:
            n = *s ? strlen(*s) + 1 : 0;
            r = hg_proc_memcpy(p, &n, 8);
            return r != HG_SUCCESS || !n ? r : hg_proc_memcpy(p, *s, n);
        case HG_DECODE:
            if ((r = hg_proc_memcpy(p, &n, 8)) != HG_SUCCESS) return r;
            *s = nullptr;
            if (!n) return r;
            if (n > p->buf->size() - p->pos) return HG_OVERFLOW;
            *s = (char *)malloc(n);
            return hg_proc_memcpy(p, *s, n);
        default:
            free(*s);
            *s = nullptr;
            return HG_SUCCESS;
    }
}
hg_return_t hg_proc_hg_string_t(hg_proc_t p, void *d) { return proc_string(p, (char **)d); }
hg_return_t hg_proc_hg_const_string_t(hg_proc_t p, void *d) { return proc_string(p, (char **)d); }
hg_return_t
hg_proc_hg_bulk_t(hg_proc_t p, void *d)
{
    hg_bulk_t *b = (hg_bulk_t *)d;
    if (p->op == HG_ENCODE) {
        if (*b && (*b)->refs <= 0) perr("freed bulk handle sent");
        std::shared_ptr<BulkMem> *m = *b ? new std::shared_ptr<BulkMem>((*b)->mem) : nullptr;
        return hg_proc_memcpy(p, &m, sizeof m);
    }
    if (p->op == HG_DECODE) {
        std::shared_ptr<BulkMem> *m;
        hg_return_t               r = hg_proc_memcpy(p, &m, sizeof m);
        if (r != HG_SUCCESS) return r;
        *b = m ? new hg_bulk{*m, p->self} : nullptr;
        return r;
    }
    if (*b) { // Mercury drops the decoded handle's reference
        (*b)->refs--;
        *b = nullptr;
    }
    return HG_SUCCESS;
}
int
hg_thread_cond_timedwait(hg_thread_cond_t *, hg_thread_mutex_t *, unsigned ms)
{
    block("timedwait", [] { return false; }, W.now + ms / 1000.0);
    return -1;
}

// ---- MPI -------------------------------------------------------------------------------------------------------
double MPI_Wtime(void) { return W.now; }
int MPI_Init(int *, char ***) { me()->mpi_init = true; return 0; }
int MPI_Initialized(int *f) { *f = me()->mpi_init; return 0; }
int MPI_Finalize(void) { return 0; }
static Comm *
comm(MPI_Comm c)
{
    Proc *p  = me();
    auto  it = p->comms.find(c);
    if (it == p->comms.end()) { perr("unknown communicator"); die("MPI call on an unknown communicator"); }
    return it->second;
}
static int
crank(Comm *c, Proc *p)
{
    for (size_t i = 0; i < c->members.size(); i++) if (c->members[i] == p) return (int)i;
    return -1;
}
int MPI_Comm_rank(MPI_Comm c, int *r) { *r = crank(comm(c), me()); return 0; }
int MPI_Comm_size(MPI_Comm c, int *s) { *s = (int)comm(c)->members.size(); return 0; }
// contribute data; wait until everyone has (or, when need is given, until that rank has)
static Comm::Coll &
rendezvous(Comm *c, const void *d, size_t n, int need, const char *what)
{
    Proc *    p = me();
    uint64_t  s = c->seq[p]++;
    auto &    k = c->coll[s];
    int       r = crank(c, p);
    k.data[r].assign((const char *)d, (const char *)d + n);
    k.arrived++;
    if (need == -2) return k;
    if (need >= 0) block(what, [&k, need] { return k.data.count(need) > 0; });
    else block(what, [&k, c] { return k.arrived == (int)c->members.size(); });
    return k;
}
static size_t tsize(MPI_Datatype t) { return t >> 8; }
int MPI_Barrier(MPI_Comm c) { rendezvous(comm(c), "", 0, -1, "barrier"); return 0; }
int
MPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm c)
{
    Comm *m = comm(c);
    bool  isroot = crank(m, me()) == root;
    size_t len = (size_t)n * tsize(t);
    auto & k = rendezvous(m, b, isroot ? len : 0, isroot ? -2 : root, "bcast");
    if (!isroot) {
        if (k.data[root].size() != len) perr("broadcast of %zu bytes received as %zu", k.data[root].size(), len);
        memcpy(b, k.data[root].data(), std::min(len, k.data[root].size()));
    }
    return 0;
}
} // extern "C"
template <class T> static void
red(T *o, const T *i, int n, MPI_Op op)
{
    for (int k = 0; k < n; k++)
        o[k] = op == MPI_SUM ? o[k] + i[k] : op == MPI_MAX ? std::max(o[k], i[k]) : std::min(o[k], i[k]);
}
extern "C" {
static void
reduce(void *o, const void *i, int n, MPI_Datatype t, MPI_Op op)
{
    switch (t) {
        case 0x101: case 0x102: case 0x103: red((int8_t *)o, (const int8_t *)i, n, op); break;
        case 0x104: red((uint8_t *)o, (const uint8_t *)i, n, op); break;
        case 0x205: red((int16_t *)o, (const int16_t *)i, n, op); break;
        case 0x406: red((int32_t *)o, (const int32_t *)i, n, op); break;
        case 0x407: red((uint32_t *)o, (const uint32_t *)i, n, op); break;
        case 0x408: red((float *)o, (const float *)i, n, op); break;
        case 0x809: red((int64_t *)o, (const int64_t *)i, n, op); break;
        case 0x80a: red((uint64_t *)o, (const uint64_t *)i, n, op); break;
        case 0x80b: red((double *)o, (const double *)i, n, op); break;
        default: perr("reduction of an unknown type"); 
    }
}
static int
reduce_upto(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, Comm *m, int need, int last, bool store)
{
    size_t len = (size_t)n * tsize(t);
    const void *src = s == MPI_IN_PLACE ? r : s;
    auto & k = rendezvous(m, src, len, need, "reduce");
    if (!store) return 0;
    std::vector<char> acc = k.data[0];
    for (int i = 1; i <= last; i++) {
        if (k.data[i].size() != len) { perr("reduction of different lengths"); continue; }
        reduce(acc.data(), k.data[i].data(), n, t, op);
    }
    memcpy(r, acc.data(), len);
    return 0;
}
int
MPI_Reduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c)
{
    Comm *m = comm(c);
    bool  isroot = crank(m, me()) == root;
    return reduce_upto(s, r, n, t, op, m, isroot ? -1 : -2, (int)m->members.size() - 1, isroot);
}
int
MPI_Allreduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c)
{
    Comm *m = comm(c);
    return reduce_upto(s, r, n, t, op, m, -1, (int)m->members.size() - 1, true);
}
int
MPI_Scan(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c)
{
    Comm *m = comm(c);
    return reduce_upto(s, r, n, t, op, m, -1, crank(m, me()), true);
}
static int
gatherv(const void *s, int n, MPI_Datatype t, void *r, const int *rn, const int *dis, int n1, MPI_Datatype rt, int root, MPI_Comm c)
{
    Comm *m    = comm(c);
    int   self = crank(m, me());
    bool  take = root < 0 || root == self;
    std::vector<char> tmp;
    if (s == MPI_IN_PLACE) {
        size_t off = dis ? dis[self] : (size_t)self * n1, len = rn ? rn[self] : n1;
        tmp.assign((char *)r + off * tsize(rt), (char *)r + (off + len) * tsize(rt));
    }
    else tmp.assign((const char *)s, (const char *)s + (size_t)n * tsize(t));
    auto &k = rendezvous(m, tmp.data(), tmp.size(), take ? -1 : -2, "gather");
    if (!take) return 0;
    for (size_t i = 0; i < m->members.size(); i++) {
        size_t off = (dis ? dis[i] : i * n1) * tsize(rt), len = (rn ? rn[i] : n1) * tsize(rt);
        if (k.data[i].size() > len) perr("gather of %zu bytes into %zu", k.data[i].size(), len);
        memcpy((char *)r + off, k.data[i].data(), std::min(len, k.data[i].size()));
    }
    return 0;
}
int MPI_Gather(const void *s, int n, MPI_Datatype t, void *r, int rn, MPI_Datatype rt, int root, MPI_Comm c) { return gatherv(s, n, t, r, nullptr, nullptr, rn, rt, root, c); }
int MPI_Gatherv(const void *s, int n, MPI_Datatype t, void *r, const int *rn, const int *d, MPI_Datatype rt, int root, MPI_Comm c) { return gatherv(s, n, t, r, rn, d, 0, rt, root, c); }
int MPI_Allgather(const void *s, int n, MPI_Datatype t, void *r, int rn, MPI_Datatype rt, MPI_Comm c) { return gatherv(s, n, t, r, nullptr, nullptr, rn, rt, -1, c); }
int MPI_Allgatherv(const void *s, int n, MPI_Datatype t, void *r, const int *rn, const int *d, MPI_Datatype rt, MPI_Comm c) { return gatherv(s, n, t, r, rn, d, 0, rt, -1, c); }
int
MPI_Scatterv(const void *s, const int *sn, const int *dis, MPI_Datatype t, void *r, int rn, MPI_Datatype rt, int root, MPI_Comm c)
{
    Comm *m    = comm(c);
    int   self = crank(m, me());
    std::vector<char> all;
    std::vector<int>  off;
    if (self == root) {
        for (size_t i = 0; i < m->members.size(); i++) {
            uint64_t len = (uint64_t)sn[i] * tsize(t);
            all.insert(all.end(), (char *)&len, (char *)&len + 8);
            all.insert(all.end(), (const char *)s + (size_t)dis[i] * tsize(t), (const char *)s + (size_t)dis[i] * tsize(t) + len);
        }
    }
    auto & k = rendezvous(m, all.data(), all.size(), self == root ? -2 : root, "scatter");
    const char *q = k.data[root].data();
    for (int i = 0;; i++) {
        uint64_t len;
        memcpy(&len, q, 8);
        q += 8;
        if (i == self) { memcpy(r, q, std::min<uint64_t>(len, (uint64_t)rn * tsize(rt))); break; }
        q += len;
    }
    return 0;
}
int
MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm *out)
{
    Comm *m    = comm(c);
    Proc *p    = me();
    int   v[2] = {color, key};
    auto &k    = rendezvous(m, v, sizeof v, -1, "split");
    std::vector<std::pair<std::pair<int, int>, Proc *>> mem;
    int lead = -1;
    for (size_t i = 0; i < m->members.size(); i++) {
        int w[2];
        memcpy(w, k.data[i].data(), 8);
        if (w[0] != color) continue;
        if (lead < 0) lead = (int)i;
        mem.push_back({{w[1], (int)i}, m->members[i]});
    }
    if (color == MPI_UNDEFINED) { *out = MPI_COMM_NULL; return 0; }
    std::sort(mem.begin(), mem.end());
    // all members of a colour share one object: made by the first to get here
    static std::map<std::pair<Comm::Coll *, int>, Comm *> made;
    Comm *&nc = made[{&k, lead}];
    if (!nc) { nc = new Comm; for (auto &x : mem) nc->members.push_back(x.second); }
    *out = p->nextcomm++;
    p->comms[*out] = nc;
    return 0;
}
int MPI_Comm_dup(MPI_Comm c, MPI_Comm *o) { return MPI_Comm_split(c, 0, crank(comm(c), me()), o); }
int MPI_Comm_split_type(MPI_Comm c, int, int key, MPI_Info, MPI_Comm *o) { return MPI_Comm_split(c, 0, key, o); }
int MPI_Comm_free(MPI_Comm *c) { *c = MPI_COMM_NULL; return 0; }

// ---- system ----------------------------------------------------------------------------------------------------
unsigned __wrap_sleep(unsigned s) { block("sleep", [] { return false; }, W.now + s); return 0; }
int __wrap_usleep(unsigned us) { block("sleep", [] { return false; }, W.now + us / 1e6); return 0; }
int
__wrap_nanosleep(const struct timespec *t, struct timespec *)
{
    block("sleep", [] { return false; }, W.now + t->tv_sec + t->tv_nsec / 1e9);
    return 0;
}
time_t __wrap_time(time_t *t) { time_t v = (time_t)W.now; if (t) *t = v; return v; }
int
__wrap_gettimeofday(struct timeval *tv, void *)
{
    W.now += 1e-6;
    tv->tv_sec  = (time_t)W.now;
    tv->tv_usec = (suseconds_t)((W.now - (double)tv->tv_sec) * 1e6);
    return 0;
}
clock_t
__wrap_clock(void)
{
    double r = W.cur && me()->group->kind == 's' && (size_t)me()->rank < W.rates.size() ? W.rates[me()->rank] : 1;
    return (clock_t)((W.now - 1.6e9) * r * CLOCKS_PER_SEC);
}
void __wrap_srand(unsigned s) { if (W.cur) me()->rnd = s * 2 + 1; }
int
__wrap_rand(void)
{
    uint32_t &r = me()->rnd;
    r           = r * 1103515245u + 12345u;
    return (int)((r >> 1) & 0x7fffffff);
}
long __wrap_random(void) { return __wrap_rand(); }
int __wrap_gethostname(char *n, size_t l) { snprintf(n, l, "simhost"); return 0; }
int __wrap_fork(void) { errno = EAGAIN; return -1; }
void
__wrap_exit(int code)
{
    die("a " + string(me()->group->kind == 's' ? "server" : "client") + " called exit(" + std::to_string(code) + ")");
}
void __wrap_abort(void) { die("a " + string(me()->group->kind == 's' ? "server" : "client") + " called abort()"); }
// Files of checkpoints: every opening, written byte and renaming counts against the budget set by crash_after() or no_space_after().
static string
place(const char *p) // the node's /tmp is a directory of the case
{
    if (!strncmp(p, "/tmp/metadata_checkpoint", 24)) return W.dir + "/node" + string(p + 4);
    return p;
}
static uint64_t // how much of n can be done
charge(uint64_t n)
{
    if (!W.cur) return n;
    uint64_t k = W.store && W.budget < n ? W.budget : n;
    if (W.store) W.budget -= k;
    W.spent += k;
    return k;
}
static bool
out_of_budget(uint64_t did, uint64_t n)
{
    if (did == n) return false;
    if (W.store == 1) lose_();
    return true;
}
// A thread can be interrupted at its accesses to storage too, inside or outside what a mutex protects.
static void
io_point()
{
    if (!W.cur || !W.preempt || me()->fibers.size() < 2) return;
    uint64_t r = below(8);
    if (r == 0) block("mutex", [] { return true; });
    if (r == 1) block("sleep", [] { return false; }, W.now + 1e-6 * (1 + below(200)));
}
static ssize_t
ck_write(void *f, const char *b, size_t n)
{
    if (!W.cur) return n;
    io_point();
    int    fd = (int)(intptr_t)f;
    size_t k  = charge(n);
    for (size_t at = 0; at < k;) {
        ssize_t r = write(fd, b + at, k - at);
        if (r <= 0) return at;
        at += r;
    }
    if (out_of_budget(k, n)) errno = ENOSPC;
    return k;
}
static int ck_close(void *f) { return close((int)(intptr_t)f); }
static int
ck_seek(void *f, off64_t *o, int w)
{
    off64_t r = lseek64((int)(intptr_t)f, *o, w);
    if (r < 0) return -1;
    *o = r;
    return 0;
}
static ssize_t ck_read(void *f, char *b, size_t n) { return read((int)(intptr_t)f, b, n); }
FILE *
__wrap_fopen(const char *p, const char *mode)
{
    if (!W.cur || !strstr(p, "metadata_checkpoint")) return fopen(p, mode);
    string q = place(p);
    if (*mode == 'r' && !strchr(mode, '+')) return fopen(q.c_str(), mode);
    if (out_of_budget(charge(1), 1)) { errno = ENOSPC; return nullptr; }
    if (q != p) mkdir((W.dir + "/node").c_str(), 0777);
    int fd = open(q.c_str(), O_RDWR | O_CREAT | (*mode == 'w' ? O_TRUNC : *mode == 'a' ? O_APPEND : 0) | O_CLOEXEC, 0644);
    if (fd < 0) return nullptr;
    return fopencookie((void *)(intptr_t)fd, mode, {ck_read, ck_write, ck_seek, ck_close});
}
int
__wrap_rename(const char *a, const char *b)
{
    if (!strstr(b, "metadata_checkpoint")) return rename(a, b);
    if (charge(1) < 1) out_of_budget(0, 1); // a renaming needs no space
    return rename(place(a).c_str(), place(b).c_str());
}
int __wrap_remove(const char *p) { return remove(place(p).c_str()); }
int __wrap_unlink(const char *p) { return unlink(place(p).c_str()); }
// moving a file to another file system copies it
static int
move(const string &a, const string &b)
{
    FILE *in = fopen(a.c_str(), "rb");
    if (!in) return 256;
    bool   ok  = !out_of_budget(charge(1), 1);
    int    out = ok ? open(b.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0644) : -1;
    char   buf[4096];
    size_t n;
    ok = out >= 0;
    while (ok && (n = fread(buf, 1, sizeof buf, in)) > 0) ok = (size_t)ck_write((void *)(intptr_t)out, buf, n) == n;
    fclose(in);
    if (out >= 0) close(out);
    if (ok) unlink(a.c_str());
    return ok ? 0 : 256;
}
// the shell commands PDC runs: "mkdir -p DIR" and "mv A B"; anything else is refused and reported
int
__wrap_system(const char *cmd)
{
    std::vector<string> w;
    string              t;
    for (const char *q = cmd; *q; q++) { if (*q == ' ') { if (!t.empty()) w.push_back(t); t.clear(); } else t += *q; }
    if (!t.empty()) w.push_back(t);
    if (w.size() == 3 && w[0] == "mkdir" && w[1] == "-p") {
        string p;
        for (char ch : w[2] + "/") { if (ch == '/' && !p.empty()) mkdir(p.c_str(), 0755); p += ch; }
        return 0;
    }
    if (w.size() == 3 && w[0] == "mv") return move(place(w[1].c_str()), place(w[2].c_str()));
    perr("refused shell command: %s", cmd);
    return 256;
}
static string
shmname(const char *n)
{
    string s = W.dir + "/shm_";
    for (const char *q = n; *q; q++) s += *q == '/' ? '_' : *q;
    return s;
}
int __wrap_shm_open(const char *n, int fl, mode_t m) { return open(shmname(n).c_str(), fl, m); }
int __wrap_shm_unlink(const char *n) { return unlink(shmname(n).c_str()); }

// threads: fibers of the same process.  A new thread runs as soon as its creator gives way; creating one gives way
// until the new thread waits for something, so that code that spins until its threads are up does end.
struct Mutex { Fiber *owner = nullptr; int depth = 0; };
static std::map<void *, Mutex> mutexes;
static std::map<void *, uint64_t> conds; // number of wake-ups so far
static std::map<void *, std::deque<uint64_t *>> waiters;
int
__wrap_pthread_create(pthread_t *t, const pthread_attr_t *, void *(*fn)(void *), void *arg)
{
    Proc * p = me();
    Fiber *f = new_fiber(p, nullptr);
    f->entry = [f, fn, arg] { f->result = fn(arg); };
    f->daemon = true;
    *t = (pthread_t)(f->id + 1);
    auto  started = std::make_shared<bool>(false);
    block("thread start", [f] { return f->done || (f->what[0] && strcmp(f->what, "yield") && strcmp(f->what, "mutex")); });
    return 0;
}
int __wrap_pthread_detach(pthread_t) { return 0; }
int __wrap_pthread_kill(pthread_t, int) { return 0; }
int
__wrap_pthread_join(pthread_t t, void **r)
{
    Fiber *f = W.fibers[(size_t)t - 1];
    block("join", [f] { return f->done; });
    if (r) *r = f->result;
    return 0;
}
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *) { mutexes.erase(m); return 0; }
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m) { mutexes.erase(m); return 0; }
int
__wrap_pthread_mutex_lock(pthread_mutex_t *m)
{
    if (!W.cur) return 0;
    if (W.preempt && me()->fibers.size() > 1 && below(8) == 0) block("mutex", [] { return true; });
    Mutex &x = mutexes[m];
    if (x.owner == W.cur) die("a thread locks a mutex it already holds");
    if (x.owner) block("mutex wait", [m] { return mutexes[m].owner == nullptr; });
    mutexes[m].owner = W.cur;
    return 0;
}
int
__wrap_pthread_mutex_trylock(pthread_mutex_t *m)
{
    if (mutexes[m].owner) return EBUSY;
    mutexes[m].owner = W.cur;
    return 0;
}
int
__wrap_pthread_mutex_unlock(pthread_mutex_t *m)
{
    if (!W.cur) return 0;
    mutexes[m].owner = nullptr;
    if (W.preempt && me()->fibers.size() > 1 && below(8) == 0) block("mutex", [] { return true; });
    return 0;
}
ssize_t __wrap_write(int fd, const void *b, size_t n) { io_point(); return write(fd, b, n); }
ssize_t __wrap_pread(int fd, void *b, size_t n, off_t at) { io_point(); return pread(fd, b, n, at); }
off_t __wrap_lseek(int fd, off_t at, int w) { io_point(); return lseek(fd, at, w); }
int __wrap_pthread_cond_init(pthread_cond_t *, const pthread_condattr_t *) { return 0; }
int __wrap_pthread_cond_destroy(pthread_cond_t *) { return 0; }
int
__wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
    uint64_t woken = 0;
    waiters[c].push_back(&woken);
    __wrap_pthread_mutex_unlock(m);
    block("cond", [&woken] { return woken != 0; });
    __wrap_pthread_mutex_lock(m);
    return 0;
}
int
__wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t)
{
    uint64_t woken = 0;
    waiters[c].push_back(&woken);
    __wrap_pthread_mutex_unlock(m);
    bool ok = block("cond", [&woken] { return woken != 0; }, t->tv_sec + t->tv_nsec / 1e9);
    auto &q = waiters[c];
    for (auto it = q.begin(); it != q.end(); ++it) if (*it == &woken) { q.erase(it); break; }
    __wrap_pthread_mutex_lock(m);
    return ok ? 0 : ETIMEDOUT;
}
int
__wrap_pthread_cond_signal(pthread_cond_t *c)
{
    auto &q = waiters[c];
    if (!q.empty()) { size_t k = W.fifo ? 0 : below(q.size()); *q[k] = 1; q.erase(q.begin() + k); }
    return 0;
}
int
__wrap_pthread_cond_broadcast(pthread_cond_t *c)
{
    auto &q = waiters[c];
    while (!q.empty()) { *q.front() = 1; q.pop_front(); }
    return 0;
}
} // extern "C"
