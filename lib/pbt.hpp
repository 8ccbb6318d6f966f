// Choice-sequence property-based testing engine (integrated shrinking, crash isolation, replay).
//
// A test case is a pure function of a sequence of bounded integers ("choices").  Random mode draws the
// choices from a PRNG seeded by (VERIF_SEED, case index) and records them; replay mode feeds a recorded
// sequence back (missing choices read as 0).  Shrinking edits the sequence (drop spans / chunks, lower
// values), so every generator shrinks for free.  Cases run in forked children, so sanitizer aborts,
// signals and runaway loops are attributed to the exact case that caused them.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <stdexcept>
#include <algorithm>

namespace pbt {

struct Failure {
    std::string sig; // short stable signature (what kind of violation)
    std::string msg; // human readable detail
};
struct Discard {};

class Case {
  public:
    // ---- choices -------------------------------------------------------------------------------
    uint64_t below(uint64_t n); // [0,n)
    int64_t  range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo) + 1); } // incl.
    bool     chance(unsigned num, unsigned den) { return below(den) >= den - num; } // shrinks to false
    bool     flip() { return below(2) == 1; }
    uint64_t bits(int nbits); // nbits <= 64
    template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
    template <class T> T pick(std::initializer_list<T> v) { return *(v.begin() + below(v.size())); }
    // weighted choice: index with probability w[i]/sum
    size_t weighted(std::initializer_list<unsigned> w);
    size_t weighted(const std::vector<unsigned> &w);
    // small-biased size in [0,max]
    size_t size(size_t max);
    // "another element?" style list: average n elements, at most max
    void   list(size_t minn, size_t avg, size_t max, const std::function<void(size_t)> &f);
    double unit() { return (double)bits(53) / 9007199254740992.0; }

    void span_begin();
    void span_end();

    // ---- reporting -----------------------------------------------------------------------------
    void note(const char *fmt, ...) __attribute__((format(printf, 2, 3))); // appended to rendering
    void label(const std::string &l);                                       // distribution counters
    void nontrivial() { nontrivial_ = true; }
    [[noreturn]] void fail(const char *sig, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
    [[noreturn]] void discard() { throw Discard(); }

    // internal
    std::vector<uint64_t>                    replay;
    bool                                     replaying = false;
    uint64_t                                 rng[4];
    size_t                                   pos = 0;
    bool                                     nontrivial_ = false;
    uint64_t                                 index       = 0;
    std::vector<std::string>                 labels;
    std::vector<size_t>                      span_stack;
    uint64_t                                 next_rng();
    bool                                     thorough = false;
};

struct Property {
    const char *id;
    const char *rule;            // evidence: how cases are made / what is non-trivial
    uint64_t    quick_cases;     // number of cases in the quick tier
    uint64_t    thorough_cases;  // number of cases in the thorough tier
    unsigned    batch;           // cases per forked child (1 = full isolation)
    unsigned    cpu_limit_s;     // CPU seconds per case before it counts as a hang
    void (*run)(Case &);
    void (*child_init)() = nullptr; // called once in each forked child before cases run
    void (*case_reset)() = nullptr; // called before every case
    std::vector<std::string> assumptions;
};

int run_main(int argc, char **argv, Property p);

} // namespace pbt

#define PBT_CHECK(c, cond, sig, ...)                                                                         \
    do {                                                                                                     \
        if (!(cond))                                                                                         \
            (c).fail(sig, __VA_ARGS__);                                                                      \
    } while (0)
