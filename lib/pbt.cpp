#include "pbt.hpp"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/prctl.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <errno.h>
#include <time.h>
#include <dirent.h>
#include <unordered_set>
#include <fstream>
#include <sstream>

namespace pbt {

// ------------------------------------------------------------------------------------------------
// Shared memory block: one per worker.  Written by the child as it runs, read by the parent after the
// child ended (normally or not).
// ------------------------------------------------------------------------------------------------
static const size_t MAXCH   = 1 << 18; // choices per case
static const size_t MAXTXT  = 1 << 16;
static const size_t MAXHASH = 1 << 20;
static const size_t MAXSPAN = 1 << 15;
enum { ST_IDLE = 0, ST_RUNNING = 1, ST_PASS = 2, ST_FAIL = 3, ST_DISCARD = 4, ST_HANG = 5 };
struct Shm {
    volatile uint64_t status;
    volatile uint64_t cur_index;
    volatile uint64_t done; // cases completed in this batch
    volatile uint64_t discarded;
    volatile uint64_t nch;
    uint64_t          ch[MAXCH]; // recorded choices of the current case
    uint32_t          bound_lo[1];
    volatile uint64_t nspan;
    uint32_t          span_a[MAXSPAN], span_b[MAXSPAN];
    volatile uint64_t ntxt;
    char              txt[MAXTXT];
    char              sig[256];
    char              msg[4096];
    volatile uint64_t nhash;
    uint64_t          hash[MAXHASH];
    volatile uint64_t nlabels;
    struct {
        char     name[96];
        uint64_t n;
    } labels[256];
    volatile uint64_t nsamples;
    char              samples[4][4096];
};
static Shm *S = nullptr; // current worker's block
static std::string g_scratch;

static uint64_t
splitmix(uint64_t &x)
{
    uint64_t z = (x += 0x9E3779B97F4A7C15ull);
    z          = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z          = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
static inline uint64_t
rotl(uint64_t x, int k)
{
    return (x << k) | (x >> (64 - k));
}
uint64_t
Case::next_rng()
{
    uint64_t r = rotl(rng[1] * 5, 7) * 9, t = rng[1] << 17;
    rng[2] ^= rng[0];
    rng[3] ^= rng[1];
    rng[1] ^= rng[2];
    rng[0] ^= rng[3];
    rng[2] ^= t;
    rng[3] = rotl(rng[3], 45);
    return r;
}
uint64_t
Case::below(uint64_t n)
{
    if (n <= 1)
        return 0;
    uint64_t v;
    if (replaying)
        v = pos < replay.size() ? (replay[pos] < n ? replay[pos] : replay[pos] % n) : 0;
    else
        v = (n & (n - 1)) == 0 ? (next_rng() & (n - 1)) : (uint64_t)(((__uint128_t)next_rng() * n) >> 64);
    if (pos < MAXCH) {
        S->ch[pos] = v;
        S->nch     = pos + 1;
    }
    else
        throw Discard();
    pos++;
    return v;
}
uint64_t
Case::bits(int nb)
{
    if (nb <= 0)
        return 0;
    if (nb == 64) {
        uint64_t hi = below(1ull << 32);
        return (hi << 32) | below(1ull << 32);
    }
    return below(1ull << nb);
}
size_t
Case::weighted(const std::vector<unsigned> &w)
{
    uint64_t sum = 0;
    for (unsigned x : w)
        sum += x;
    uint64_t r = below(sum);
    for (size_t i = 0; i < w.size(); i++) {
        if (r < w[i])
            return i;
        r -= w[i];
    }
    return w.size() - 1;
}
size_t
Case::weighted(std::initializer_list<unsigned> w)
{
    return weighted(std::vector<unsigned>(w));
}
size_t
Case::size(size_t max)
{
    if (max == 0)
        return 0;
    switch (below(4)) {
        case 0:
            return below(std::min<size_t>(max, 3) + 1);
        case 1:
            return below(std::min<size_t>(max, 8) + 1);
        case 2:
            return below(std::min<size_t>(max, 32) + 1);
        default:
            return below(max + 1);
    }
}
void
Case::span_begin()
{
    span_stack.push_back(pos);
}
void
Case::span_end()
{
    size_t a = span_stack.back();
    span_stack.pop_back();
    if (S->nspan < MAXSPAN && pos > a) {
        S->span_a[S->nspan] = (uint32_t)a;
        S->span_b[S->nspan] = (uint32_t)pos;
        S->nspan            = S->nspan + 1;
    }
}
void
Case::list(size_t minn, size_t avg, size_t max, const std::function<void(size_t)> &f)
{
    size_t i = 0;
    if (avg <= minn)
        avg = minn + 1;
    for (; i < max; i++) {
        span_begin();
        if (i >= minn) {
            // continue with probability 1 - 1/(avg-minn+1); 0 = stop so that shrinking shortens
            uint64_t den = (avg - minn) + 1;
            if (below(den) == 0) {
                span_end();
                break;
            }
        }
        f(i);
        span_end();
    }
}
void
Case::note(const char *fmt, ...)
{
    char    buf[2048];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    size_t l = strlen(buf);
    if (S->ntxt + l + 2 < MAXTXT) {
        memcpy(S->txt + S->ntxt, buf, l);
        S->txt[S->ntxt + l] = '\n';
        S->ntxt             = S->ntxt + l + 1;
    }
}
void
Case::label(const std::string &l)
{
    labels.push_back(l);
}
void
Case::fail(const char *sig, const char *fmt, ...)
{
    char    buf[4000];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    throw Failure{sig, buf};
}

// ------------------------------------------------------------------------------------------------
static Property     P;
static uint64_t     g_seed;
static bool         g_thorough;
static double
now()
{
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}
static void
seed_case(Case &c, uint64_t idx)
{
    uint64_t x = g_seed * 0x9E3779B97F4A7C15ull ^ (idx + 0x1234567) * 0xD1B54A32D192ED03ull;
    for (const char *p = P.id; *p; p++)
        x = x * 131 + (unsigned char)*p;
    for (int i = 0; i < 4; i++)
        c.rng[i] = splitmix(x);
}
static void
on_cpu(int)
{
    S->status = ST_HANG;
    _exit(98);
}
static void
add_label(Shm *s, const char *n, uint64_t k)
{
    for (uint64_t i = 0; i < s->nlabels; i++)
        if (!strcmp(s->labels[i].name, n)) {
            s->labels[i].n += k;
            return;
        }
    if (s->nlabels < 256) {
        snprintf(s->labels[s->nlabels].name, 96, "%s", n);
        s->labels[s->nlabels].n = k;
        s->nlabels              = s->nlabels + 1;
    }
}
// run one case in this process
static int
run_case(Case &c)
{
    S->nch = S->nspan = S->ntxt = 0;
    S->sig[0] = S->msg[0] = 0;
    S->cur_index          = c.index;
    S->status             = ST_RUNNING;
    struct itimerval it   = {{0, 0}, {(time_t)P.cpu_limit_s, 0}};
    signal(SIGPROF, on_cpu);
    setitimer(ITIMER_PROF, &it, nullptr);
    int st = ST_PASS;
    c.thorough = g_thorough;
    if (P.case_reset)
        P.case_reset();
    try {
        P.run(c);
    }
    catch (Failure &f) {
        snprintf(S->sig, sizeof S->sig, "%s", f.sig.c_str());
        snprintf(S->msg, sizeof S->msg, "%s", f.msg.c_str());
        st = ST_FAIL;
    }
    catch (Discard &) {
        st = ST_DISCARD;
    }
    struct itimerval off = {{0, 0}, {0, 0}};
    setitimer(ITIMER_PROF, &off, nullptr);
    if (st == ST_PASS) {
        for (auto &l : c.labels)
            add_label(S, l.c_str(), 1);
        if (c.nontrivial_) {
            uint64_t h = 1469598103934665603ull;
            for (uint64_t i = 0; i < S->nch; i++) {
                h ^= S->ch[i];
                h *= 1099511628211ull;
                h ^= h >> 29;
            }
            if (S->nhash < MAXHASH) {
                S->hash[S->nhash] = h;
                S->nhash          = S->nhash + 1;
            }
            if (S->nsamples < 4 && S->ntxt > 0) {
                size_t l = std::min<size_t>((size_t)S->ntxt, 4095);
                memcpy(S->samples[S->nsamples], S->txt, l);
                S->samples[S->nsamples][l] = 0;
                S->nsamples                = S->nsamples + 1;
            }
        }
    }
    S->status = st;
    return st;
}
static void
child_setup(const std::string &errfile)
{
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    int fd = open(errfile.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0666);
    if (fd >= 0) {
        if (!getenv("PBT_STDOUT"))
            dup2(fd, 2);
        close(fd);
    }
    if (!getenv("PBT_STDOUT")) {
        int nul = open("/dev/null", O_WRONLY);
        dup2(nul, 1);
        close(nul);
    }
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    if (P.child_init)
        P.child_init();
}
static Shm *
new_shm()
{
    void *p = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) {
        perror("mmap");
        exit(2);
    }
    return (Shm *)p;
}
static std::string
slurp(const std::string &f, size_t max = 20000)
{
    std::ifstream     i(f);
    std::stringstream s;
    s << i.rdbuf();
    std::string r = s.str();
    if (r.size() > max)
        r.resize(max);
    return r;
}
// turn a crash into (sig,msg)
static void
crash_report(int wst, const std::string &err, std::string &sig, std::string &msg)
{
    char        b[128];
    std::string e = slurp(err);
    size_t      k = e.find("ERROR: AddressSanitizer:");
    if (k != std::string::npos) {
        size_t      a = k + strlen("ERROR: AddressSanitizer:");
        std::string w;
        while (a < e.size() && e[a] == ' ')
            a++;
        while (a < e.size() && !isspace((unsigned char)e[a]))
            w += e[a++];
        sig = "asan-" + w;
        // first frame that is not a sanitizer/libc interceptor
        size_t      p = e.find("    #0 ", k);
        std::string fr;
        while (p != std::string::npos) {
            size_t      q    = e.find('\n', p);
            std::string line = e.substr(p, q - p);
            size_t      in   = line.find(" in ");
            if (in != std::string::npos && line.find("/repo/") != std::string::npos) {
                size_t z = in + 4;
                while (z < line.size() && !isspace((unsigned char)line[z]))
                    fr += line[z++];
                break;
            }
            p = e.find("    #", q);
        }
        if (!fr.empty())
            sig += ":" + fr;
        msg = e.substr(k, 3000);
        return;
    }
    if (WIFSIGNALED(wst))
        snprintf(b, sizeof b, "signal-%d", WTERMSIG(wst));
    else
        snprintf(b, sizeof b, "exit-%d", WEXITSTATUS(wst));
    sig = b;
    msg = e.size() > 3000 ? e.substr(e.size() - 3000) : e;
}

struct Outcome {
    int         st;
    std::string sig, msg, txt;
};
static Shm *RS; // shm for replays
static std::vector<uint64_t> R_used;
static std::vector<std::pair<uint32_t, uint32_t>> R_spans;
static Outcome
run_isolated(const std::vector<uint64_t> &ch, uint64_t index)
{
    Outcome     o;
    std::string err = g_scratch + "/err.replay";
    S               = RS;
    S->status       = ST_IDLE;
    S->nch = S->ntxt = S->nspan = 0;
    fflush(stdout);
    fflush(stderr);
    pid_t p = fork();
    if (p == 0) {
        child_setup(err);
        Case c;
        c.replaying = true;
        c.replay    = ch;
        c.index     = index;
        seed_case(c, index);
        run_case(c);
        _exit(0);
    }
    int wst = 0;
    double t0 = now();
    bool   killed = false;
    for (;;) {
        pid_t r = waitpid(p, &wst, WNOHANG);
        if (r == p)
            break;
        if (now() - t0 > 60 + 6.0 * P.cpu_limit_s) {
            kill(p, SIGKILL);
            killed = true;
        }
        usleep(500);
    }
    R_used.assign(RS->ch, RS->ch + RS->nch);
    R_spans.clear();
    for (uint64_t i = 0; i < RS->nspan; i++)
        R_spans.push_back({RS->span_a[i], RS->span_b[i]});
    o.txt = std::string(RS->txt, RS->ntxt);
    o.st  = (int)RS->status;
    if (o.st == ST_FAIL) {
        o.sig = RS->sig;
        o.msg = RS->msg;
    }
    else if (o.st == ST_HANG) {
        o.st  = ST_FAIL;
        o.sig = "hang";
        o.msg = "case exceeded its CPU budget";
    }
    else if (o.st == ST_RUNNING || o.st == ST_IDLE) {
        if (killed) {
            o.st  = ST_DISCARD;
            o.sig = "blocked";
        }
        else {
            o.st = ST_FAIL;
            crash_report(wst, err, o.sig, o.msg);
        }
    }
    return o;
}

static std::vector<std::string> g_known; // known signatures for this property
static bool
is_known(const std::string &sig)
{
    for (auto &k : g_known)
        if (k == sig)
            return true;
    return false;
}

// shrink: keep any candidate that fails with the same signature
static std::vector<uint64_t>
shrink(std::vector<uint64_t> best, uint64_t index, const std::string &sig, double budget)
{
    double t0    = now();
    int    tries = 0;
    auto   ok    = [&](const std::vector<uint64_t> &c) {
        if (now() - t0 > budget)
            return false;
        tries++;
        Outcome o = run_isolated(c, index);
        return o.st == ST_FAIL && o.sig == sig;
    };
    if (!ok(best))
        return best;
    best = R_used;
    auto spans = R_spans;
    bool prog  = true;
    while (prog && now() - t0 < budget) {
        prog = false;
        // 1. remove spans, largest first
        std::sort(spans.begin(), spans.end(), [](auto &a, auto &b) {
            return a.second - a.first > b.second - b.first;
        });
        for (size_t i = 0; i < spans.size() && now() - t0 < budget; i++) {
            auto sp = spans[i];
            if (sp.second > best.size() || sp.second - sp.first >= best.size())
                continue;
            std::vector<uint64_t> c(best.begin(), best.begin() + sp.first);
            c.insert(c.end(), best.begin() + sp.second, best.end());
            if (ok(c)) {
                if (R_used.size() < best.size()) {
                    best  = R_used;
                    spans = R_spans;
                    std::sort(spans.begin(), spans.end(), [](auto &a, auto &b) {
                        return a.second - a.first > b.second - b.first;
                    });
                    i    = (size_t)-1;
                    prog = true;
                }
            }
        }
        // 2. chunk deletion
        for (size_t k = std::max<size_t>(best.size() / 2, 1); k >= 1 && now() - t0 < budget; k /= 2) {
            for (size_t a = 0; a + k <= best.size() && now() - t0 < budget;) {
                std::vector<uint64_t> c(best.begin(), best.begin() + a);
                c.insert(c.end(), best.begin() + a + k, best.end());
                if (ok(c) && R_used.size() < best.size()) {
                    best  = R_used;
                    spans = R_spans;
                    prog  = true;
                }
                else
                    a += k;
            }
            if (k == 1)
                break;
        }
        // 3. lower values
        for (size_t a = 0; a < best.size() && now() - t0 < budget; a++) {
            if (best[a] == 0)
                continue;
            auto     c = best;
            uint64_t v = best[a];
            c[a]       = 0;
            if (ok(c)) {
                best = R_used.size() <= best.size() ? R_used : c;
                prog = true;
                continue;
            }
            uint64_t lo = 0, hi = v;
            while (hi - lo > 1 && now() - t0 < budget) {
                uint64_t m = lo + (hi - lo) / 2;
                c[a]       = m;
                if (ok(c))
                    hi = m;
                else
                    lo = m;
            }
            if (hi != v) {
                best[a] = hi;
                prog    = true;
            }
        }
    }
    fprintf(stderr, "[shrink] %d candidate runs, %.1fs, %zu choices left\n", tries, now() - t0, best.size());
    return best;
}

static std::string
jesc(const std::string &s)
{
    std::string r = "\"";
    for (unsigned char ch : s) {
        char b[8];
        if (ch == '"' || ch == '\\') {
            r += '\\';
            r += ch;
        }
        else if (ch == '\n')
            r += "\\n";
        else if (ch < 32 || ch > 126) {
            snprintf(b, sizeof b, "\\u%04x", ch);
            r += b;
        }
        else
            r += ch;
    }
    return r + "\"";
}
static void
rmtree(const std::string &d)
{
    // only ever called with directories this process created with mkdtemp
    DIR *dir = opendir(d.c_str());
    if (dir) {
        struct dirent *e;
        while ((e = readdir(dir))) {
            std::string n = e->d_name;
            if (n == "." || n == "..")
                continue;
            std::string f = d + "/" + n;
            struct stat st;
            if (lstat(f.c_str(), &st) == 0 && S_ISDIR(st.st_mode))
                rmtree(f);
            else
                unlink(f.c_str());
        }
        closedir(dir);
    }
    rmdir(d.c_str());
}

static std::string
outdir()
{
    const char *d = getenv("VERIF_DIR");
    return d ? d : "/verif";
}

static std::string
write_replay(const std::vector<uint64_t> &ch, uint64_t index, const Outcome &o)
{
    std::string dir = outdir() + "/replays";
    mkdir(dir.c_str(), 0755);
    uint64_t h = 1469598103934665603ull;
    for (auto v : ch)
        h = (h ^ v) * 1099511628211ull;
    char f[512];
    snprintf(f, sizeof f, "%s/%s-%016llx.replay", dir.c_str(), P.id, (unsigned long long)h);
    FILE *fp = fopen(f, "w");
    if (!fp)
        return "(unwritable)";
    fprintf(fp, "# replay: bin/replay %s %s\nproperty %s\nindex %llu\nseed %llu\nsig %s\nchoices", P.id, f, P.id,
            (unsigned long long)index, (unsigned long long)g_seed, o.sig.c_str());
    for (auto v : ch)
        fprintf(fp, " %llu", (unsigned long long)v);
    fprintf(fp, "\n--- case ---\n%s\n--- failure ---\n%s: %s\n", o.txt.c_str(), o.sig.c_str(), o.msg.c_str());
    fclose(fp);
    return f;
}

struct Known {
    std::string sig, text;
    std::string choices;
};

int
run_main(int argc, char **argv, Property prop)
{
    P                = prop;
    const char *e    = getenv("VERIF_SEED");
    g_seed           = e ? strtoull(e, 0, 10) : 1;
    e                = getenv("VERIF_TIER");
    g_thorough       = e && !strcmp(e, "thorough");
    uint64_t ncases  = g_thorough ? P.thorough_cases : P.quick_cases;
    if ((e = getenv("PBT_CASES")))
        ncases = strtoull(e, 0, 10);
    int nworkers = 8;
    if ((e = getenv("PBT_WORKERS")))
        nworkers = atoi(e);
    double maxwall = g_thorough ? 780 : 150;
    if ((e = getenv("PBT_MAXWALL")))
        maxwall = atof(e);
    char tmpl[256];
    snprintf(tmpl, sizeof tmpl, "%s/pbt-%s-XXXXXX", getenv("PBT_TMP") ? getenv("PBT_TMP") : "/tmp", P.id);
    if (!mkdtemp(tmpl)) {
        perror("mkdtemp");
        return 2;
    }
    chmod(tmpl, 0777);
    g_scratch = tmpl;
    setenv("PBT_SCRATCH", tmpl, 1);
    RS = new_shm();
    S  = RS;

    // --- replay / single-case modes
    if (argc >= 3 && !strcmp(argv[1], "--replay")) {
        std::ifstream         in(argv[2]);
        std::string           line;
        std::vector<uint64_t> ch;
        uint64_t              idx = 0;
        while (std::getline(in, line)) {
            std::istringstream ls(line);
            std::string        k;
            ls >> k;
            if (k == "index")
                ls >> idx;
            else if (k == "seed")
                ls >> g_seed;
            else if (k == "choices") {
                uint64_t v;
                while (ls >> v)
                    ch.push_back(v);
            }
            if (k == "---")
                break;
        }
        Outcome o = run_isolated(ch, idx);
        printf("%s\n", o.txt.c_str());
        printf("status=%s sig=%s\n%s\n", o.st == ST_FAIL ? "FAIL" : o.st == ST_PASS ? "PASS" : "DISCARD",
               o.sig.c_str(), o.msg.c_str());
        rmtree(tmpl);
        if (o.st == ST_FAIL)
            printf("VIOLATION property=%s replay=%s\n", P.id, argv[2]);
        return o.st == ST_FAIL ? 1 : 0;
    }
    if (argc >= 3 && !strcmp(argv[1], "--case")) {
        Case c;
        c.index = strtoull(argv[2], 0, 10);
        seed_case(c, c.index);
        if (P.child_init)
            P.child_init();
        int st = run_case(c);
        printf("%.*s\nstatus=%d sig=%s\n%s\n", (int)S->ntxt, S->txt, st, S->sig, S->msg);
        rmtree(tmpl);
        return st == ST_FAIL;
    }

    // --- known findings: lines "KNOWN property=<id> sig=<sig> <text>"
    std::vector<Known> known;
    {
        std::ifstream in(outdir() + "/known_findings.txt");
        std::string   line;
        while (std::getline(in, line)) {
            std::string pre = std::string("known: property=") + P.id + " sig=";
            if (line.compare(0, pre.size(), pre) == 0) {
                Known  k;
                size_t sp = line.find(' ', pre.size());
                k.sig     = line.substr(pre.size(), sp == std::string::npos ? sp : sp - pre.size());
                k.text    = sp == std::string::npos ? "" : line.substr(sp + 1);
                known.push_back(k);
                g_known.push_back(k.sig);
            }
        }
    }

    double                       t0 = now();
    std::vector<Shm *>           shm(nworkers);
    std::vector<pid_t>           pid(nworkers, 0);
    std::vector<uint64_t>        base(nworkers, 0), cnt(nworkers, 0);
    std::vector<double>          started(nworkers, 0), lastprog(nworkers, 0);
    std::vector<uint64_t>        lastidx(nworkers, 0);
    std::vector<std::string>     errf(nworkers);
    uint64_t                     next = 0, evals = 0, discards = 0, hangs_blocked = 0;
    std::unordered_set<uint64_t> nontriv;
    std::map<std::string, uint64_t> labels;
    std::map<std::string, uint64_t> known_hits;
    std::vector<std::string>     samples;
    struct Fail {
        uint64_t              idx;
        std::vector<uint64_t> ch;
        std::string           sig, msg, txt;
    };
    std::vector<Fail> fails;
    std::vector<std::pair<uint64_t, uint64_t>> requeue; // ranges to rerun after a crash
    bool stop = false;
    for (int w = 0; w < nworkers; w++) {
        shm[w]  = new_shm();
        errf[w] = g_scratch + "/err." + std::to_string(w);
    }
    auto harvest = [&](int w) {
        Shm *s = shm[w];
        evals += s->done;
        discards += s->discarded;
        for (uint64_t i = 0; i < s->nhash; i++)
            nontriv.insert(s->hash[i]);
        for (uint64_t i = 0; i < s->nlabels; i++)
            labels[s->labels[i].name] += s->labels[i].n;
        for (uint64_t i = 0; i < s->nsamples && samples.size() < 6; i++)
            samples.push_back(s->samples[i]);
    };
    auto launch = [&](int w, uint64_t b, uint64_t n) {
        Shm *s  = shm[w];
        s->done = s->discarded = s->nhash = s->nlabels = s->nsamples = 0;
        s->status                                                      = ST_IDLE;
        base[w] = b;
        cnt[w]  = n;
        started[w] = lastprog[w] = now();
        lastidx[w]               = (uint64_t)-1;
        fflush(stdout);
        fflush(stderr);
        pid_t p = fork();
        if (p == 0) {
            S = s;
            char sd[512];
            snprintf(sd, sizeof sd, "%s/w%d", g_scratch.c_str(), w);
            child_setup(errf[w]);
            for (uint64_t i = 0; i < n; i++) {
                Case c;
                c.index = b + i;
                seed_case(c, c.index);
                int st = run_case(c);
                if (st == ST_FAIL)
                    _exit(0); // parent looks at status
                s->done = s->done + 1;
                if (st == ST_DISCARD)
                    s->discarded = s->discarded + 1;
            }
            s->status = ST_PASS;
            _exit(0);
        }
        pid[w] = p;
    };
    for (;;) {
        bool active = false;
        for (int w = 0; w < nworkers; w++) {
            if (pid[w] == 0) {
                if (stop || now() - t0 > maxwall)
                    continue;
                if (!requeue.empty()) {
                    auto r = requeue.back();
                    requeue.pop_back();
                    launch(w, r.first, r.second);
                }
                else if (next < ncases) {
                    uint64_t n = std::min<uint64_t>(P.batch, ncases - next);
                    launch(w, next, n);
                    next += n;
                }
                else
                    continue;
            }
            active = true;
            int   wst;
            pid_t r = waitpid(pid[w], &wst, WNOHANG);
            if (r == 0) {
                // watchdog on blocked (not spinning) cases
                if (shm[w]->cur_index != lastidx[w]) {
                    lastidx[w]  = shm[w]->cur_index;
                    lastprog[w] = now();
                }
                if (now() - lastprog[w] > 120) {
                    fprintf(stderr, "[pbt] case %llu blocked >120s, skipped\n",
                            (unsigned long long)shm[w]->cur_index);
                    hangs_blocked++;
                    kill(pid[w], SIGKILL);
                    waitpid(pid[w], &wst, 0);
                    harvest(w);
                    uint64_t d = shm[w]->cur_index - base[w] + 1;
                    if (d < cnt[w])
                        requeue.push_back({base[w] + d, cnt[w] - d});
                    pid[w] = 0;
                }
                continue;
            }
            pid[w] = 0;
            harvest(w);
            Shm *s  = shm[w];
            int  st = (int)s->status;
            bool okexit = WIFEXITED(wst) && WEXITSTATUS(wst) == 0;
            if (okexit && st != ST_FAIL && st != ST_RUNNING && s->done == cnt[w])
                continue;
            // failure at s->cur_index
            Fail f;
            f.idx = s->cur_index;
            f.ch.assign(s->ch, s->ch + s->nch);
            f.txt = std::string(s->txt, s->ntxt);
            if (st == ST_FAIL) {
                f.sig = s->sig;
                f.msg = s->msg;
            }
            else if (st == ST_HANG) {
                f.sig = "hang";
                f.msg = "case exceeded its CPU budget";
            }
            else
                crash_report(wst, errf[w], f.sig, f.msg);
            if (getenv("PBT_VERBOSE"))
                fprintf(stderr, "[fail] case %llu sig=%s %s\n", (unsigned long long)f.idx, f.sig.c_str(),
                        f.msg.substr(0, 300).c_str());
            evals++;
            uint64_t d = f.idx - base[w] + 1;
            if (is_known(f.sig)) {
                known_hits[f.sig]++;
                if (d < cnt[w])
                    requeue.push_back({base[w] + d, cnt[w] - d});
            }
            else {
                fails.push_back(f);
                if (getenv("PBT_KEEPGOING") && fails.size() < 200) {
                    if (d < cnt[w])
                        requeue.push_back({base[w] + d, cnt[w] - d});
                }
                else
                    stop = true;
            }
        }
        if (!active)
            break;
        usleep(300);
    }
    int rc = 0, nviol = 0;
    if (!fails.empty()) {
        if (getenv("PBT_KEEPGOING")) {
            std::map<std::string, std::pair<int, uint64_t>> h;
            for (auto &f : fails) {
                h[f.sig].first++;
                h[f.sig].second = f.idx;
            }
            for (auto &k : h)
                printf("FAILSIG %s x%d (e.g. case %llu)\n", k.first.c_str(), k.second.first,
                       (unsigned long long)k.second.second);
        }
        std::sort(fails.begin(), fails.end(), [](auto &a, auto &b) { return a.ch.size() < b.ch.size(); });
        std::set<std::string> seen;
        for (auto &f : fails) {
            if (nviol >= 1 && !getenv("PBT_KEEPGOING"))
                break;
            if (seen.count(f.sig))
                continue;
            seen.insert(f.sig);
            std::string sg = f.sig;
            Outcome     o1 = run_isolated(f.ch, f.idx);
            if (o1.st == ST_FAIL)
                sg = o1.sig;
            else {
                // not reproducible in isolation: may depend on state left by earlier cases of the batch
                fprintf(stderr, "[pbt] case %llu (%s) not reproducible in isolation\n",
                        (unsigned long long)f.idx, f.sig.c_str());
                printf("UNREPRODUCIBLE property=%s case=%llu sig=%s %s\n", P.id, (unsigned long long)f.idx,
                       f.sig.c_str(), f.msg.substr(0, 1500).c_str());
                continue;
            }
            if (is_known(sg)) {
                known_hits[sg]++;
                continue;
            }
            auto    best = shrink(f.ch, f.idx, sg, getenv("PBT_SHRINK") ? atof(getenv("PBT_SHRINK")) : 25);
            int     good = 0;
            Outcome o;
            for (int i = 0; i < 3; i++) {
                o = run_isolated(best, f.idx);
                if (o.st == ST_FAIL)
                    good++;
            }
            if (good == 3) {
                std::string rp = write_replay(best, f.idx, o);
                printf("--- minimal failing case ---\n%s\n--- failure ---\n%s: %s\n", o.txt.c_str(), o.sig.c_str(),
                       o.msg.c_str());
                printf("VIOLATION property=%s replay=%s\n", P.id, rp.c_str());
                nviol++;
                rc = 1;
            }
            else
                printf("FLAKY property=%s case=%llu sig=%s (%d/3 replays failed)\n", P.id,
                       (unsigned long long)f.idx, sg.c_str(), good);
        }
    }
    for (auto &k : known) {
        printf("KNOWN-FINDING: property=%s %s (signature %s, seen %llu times in this run)\n", P.id, k.text.c_str(),
               k.sig.c_str(), (unsigned long long)known_hits[k.sig]);
    }
    // evidence
    std::string edir = outdir() + "/evidence";
    mkdir(edir.c_str(), 0755);
    std::string ef = edir + "/" + P.id + ".json";
    FILE *      fp = fopen(ef.c_str(), "w");
    if (fp) {
        fprintf(fp, "{\n \"property\": %s,\n \"tier\": \"%s\",\n \"seed\": %llu,\n \"level\": \"exploration\",\n",
                jesc(P.id).c_str(), g_thorough ? "thorough" : "quick", (unsigned long long)g_seed);
        fprintf(fp, " \"coverage\": {\n  \"evaluations\": %llu,\n  \"distinct_nontrivial\": %zu,\n  \"discarded\": %llu,\n",
                (unsigned long long)evals, nontriv.size(), (unsigned long long)discards);
        fprintf(fp, "  \"cases_planned\": %llu,\n  \"cases_blocked_and_skipped\": %llu,\n", (unsigned long long)ncases,
                (unsigned long long)hangs_blocked);
        fprintf(fp, "  \"rule\": %s,\n  \"labels\": {", jesc(P.rule).c_str());
        bool first = true;
        for (auto &l : labels) {
            fprintf(fp, "%s\n   %s: %llu", first ? "" : ",", jesc(l.first).c_str(), (unsigned long long)l.second);
            first = false;
        }
        fprintf(fp, "},\n  \"samples\": [");
        first = true;
        for (auto &s : samples) {
            fprintf(fp, "%s\n   %s", first ? "" : ",", jesc(s.substr(0, 3000)).c_str());
            first = false;
        }
        fprintf(fp, "]\n },\n \"assumptions\": [");
        first = true;
        for (auto &s : P.assumptions) {
            fprintf(fp, "%s%s", first ? "" : ", ", jesc(s).c_str());
            first = false;
        }
        fprintf(fp, "],\n \"wall_s\": %.2f,\n \"violations\": %d\n}\n", now() - t0, nviol);
        fclose(fp);
    }
    printf("%s: %llu cases, %zu distinct non-trivial, %llu discarded, %.1fs, violations=%d\n", P.id,
           (unsigned long long)evals, nontriv.size(), (unsigned long long)discards, now() - t0, nviol);
    if (getenv("PBT_VERBOSE"))
        for (auto &l : labels)
            printf("  label %-40s %llu\n", l.first.c_str(), (unsigned long long)l.second);
    fflush(stdout);
    rmtree(tmpl);
    return rc;
}

} // namespace pbt
