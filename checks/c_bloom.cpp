// C25: an approximate-membership filter never denies an item it holds, and rarely claims one it does not.
#include "pbt.hpp"
extern "C" {
#include "dablooms/pdc_dablooms.h"
}
using pbt::Case;
typedef std::string Str;

static Str
item(uint64_t n, int kind)
{
    char b[64];
    switch (kind) {
        case 0: snprintf(b, sizeof b, "%lu", (unsigned long)n); return b;
        case 1: snprintf(b, sizeof b, "user%luapp%lu", (unsigned long)(n % 7), (unsigned long)n); return b;
        case 2: { Str s(1 + n % 40, 'x'); for (size_t i = 0; i < s.size(); i++) s[i] = (char)(n >> (i % 8)); s += Str((char *)&n, sizeof n); return s; }
        default: return Str((char *)&n, 1 + (n > 255) + (n > 65535));
    }
}
// pass the item from an exactly sized buffer at an arbitrary alignment
struct Buf {
    char *base, *p;
    Buf(const Str &s, unsigned al) { base = (char *)malloc(s.size() + al + 1); p = base + al; memcpy(p, s.data(), s.size()); p[s.size()] = 0; }
    ~Buf() { free(base); }
};
static void
run(Case &c)
{
    bool     scaling = c.weighted({3, 3}) == 1;
    unsigned cap = c.pick<unsigned>({2, 3, 5, 10, 30, 100, 500, 2000});
    double   rate = c.pick<double>({0.05, 0.01, 0.1, 0.3, 0.001, 0.5});
    int      kind = c.below(4);
    uint64_t space = c.pick<uint64_t>({8, 50, 500, 5000});
    scaling_bloom_t * sb = nullptr;
    counting_bloom_t *cb = nullptr;
    if (scaling) sb = new_scaling_bloom(cap, rate); else cb = new_counting_bloom(cap, rate);
    PBT_CHECK(c, sb || cb, "new", "no filter");
    c.note("%s filter capacity %u rate %g items %d/%lu:", scaling ? "scaling" : "counting", cap, rate, kind, (unsigned long)space);
    std::map<Str, std::vector<uint64_t>> in; // item -> ids it was added under
    uint64_t id = 0, adds = 0, rems = 0, maxmult = 0;
    std::vector<Str> order;
    auto check = [&](const Str &s) {
        Buf b(s, c.below(4));
        return scaling ? scaling_bloom_check(sb, b.p, s.size()) : counting_bloom_check(cb, b.p, s.size());
    };
    auto add = [&](const Str &s) {
        Buf b(s, c.below(4));
        uint64_t use = 0;
        if (scaling) { if (id && c.chance(1, 6)) use = 1 + c.below(id); else use = id += 1 + c.below(3); scaling_bloom_add(sb, b.p, s.size(), use); }
        else counting_bloom_add(cb, b.p, s.size());
        in[s].push_back(use);
        maxmult = std::max<uint64_t>(maxmult, in[s].size());
        adds++;
        PBT_CHECK(c, check(s), "false-negative-add", "an item just added is denied");
    };
    auto remove = [&](const Str &s) {
        auto it = in.find(s);
        if (it == in.end()) return; // removing what is not held is outside the contract
        Buf b(s, c.below(4));
        size_t k = c.below(it->second.size());
        uint64_t use = it->second[k];
        if (scaling) scaling_bloom_remove(sb, b.p, s.size(), use); else counting_bloom_remove(cb, b.p, s.size());
        it->second.erase(it->second.begin() + k);
        if (it->second.empty()) in.erase(it);
        rems++;
    };
    auto all = [&]() {
        for (auto &e : in) PBT_CHECK(c, check(e.first), "false-negative", "an item held %zu times (of %lu adds, %lu removes) is denied", e.second.size(), (unsigned long)adds, (unsigned long)rems);
    };
    c.list(1, 10, 50, [&](size_t) {
        uint64_t n = c.below(space);
        switch (c.weighted({4, 3, 4, 2, 1})) {
            case 0: c.note(" +%lu", (unsigned long)n); add(item(n, kind)); break;
            case 1: c.note(" -%lu", (unsigned long)n); remove(item(n, kind)); break;
            case 2: { uint64_t l = 1 + c.below(60); c.note(" +%lu..*%lu", (unsigned long)n, (unsigned long)l); for (uint64_t i = 0; i < l; i++) add(item(n + i, kind)); break; }
            case 3: { uint64_t l = 1 + c.below(60); c.note(" -%lu..*%lu", (unsigned long)n, (unsigned long)l); for (uint64_t i = 0; i < l; i++) remove(item(n + i, kind)); break; }
            default: { uint64_t l = 2 + c.below(20); c.note(" +%lu*%lu times", (unsigned long)n, (unsigned long)l); for (uint64_t i = 0; i < l; i++) add(item(n, kind)); }
        }
        all();
    });
    all();
    size_t nb = scaling ? sb->num_blooms : 1;
    if (scaling) free_scaling_bloom(sb); else free_counting_bloom(cb);
    c.label(scaling ? (nb > 2 ? "scaling>2" : nb > 1 ? "scaling=2" : "scaling=1") : "counting");
    if (adds > 10 && rems && (nb > 1 || !scaling)) c.nontrivial();

    // usefulness: filled to its capacity with distinct items, the filter admits few foreign items.
    if (c.chance(1, 20)) {
        unsigned cap2 = c.pick<unsigned>({200, 1000, 3000});
        double   r2 = c.pick<double>({0.05, 0.01, 0.1});
        bool     sc = c.flip();
        scaling_bloom_t * s2 = sc ? new_scaling_bloom(cap2, r2) : nullptr;
        counting_bloom_t *c2 = sc ? nullptr : new_counting_bloom(cap2, r2);
        uint64_t base = c.below(1u << 20);
        unsigned fill = sc ? cap2 * 3 : cap2;
        uint64_t next = 0;
        auto put = [&](uint64_t n, uint64_t id) { Str s = item(n, 1); if (sc) scaling_bloom_add(s2, s.c_str(), s.size(), id); else counting_bloom_add(c2, s.c_str(), s.size()); };
        auto drop = [&](uint64_t n, uint64_t id) { Str s = item(n, 1); if (sc) scaling_bloom_remove(s2, s.c_str(), s.size(), id); else counting_bloom_remove(c2, s.c_str(), s.size()); };
        auto has = [&](uint64_t n) { Str s = item(n, 1); return (sc ? scaling_bloom_check(s2, s.c_str(), s.size()) : counting_bloom_check(c2, s.c_str(), s.size())) != 0; };
        // earlier contents leave nothing behind
        unsigned churn = c.below(4);
        for (unsigned r = 0; r < churn; r++) {
            uint64_t o = base + 100000 * (r + 1);
            unsigned n = cap2 / 4 + c.below(cap2 / 2);
            for (unsigned i = 0; i < n; i++) put(o + i, next + i + 1);
            for (unsigned i = 0; i < n; i++) drop(o + i, next + i + 1);
            if (sc) next += n;
            unsigned left = 0;
            for (unsigned i = 0; i < n; i++) left += has(o + i);
            PBT_CHECK(c, !left, "not-emptied", "%s filter of capacity %u, rate %g: %u items added and removed, %u of them are still admitted", sc ? "scaling" : "counting", cap2, r2, n, left);
        }
        if (churn) c.label("refilled");
        for (unsigned i = 0; i < fill; i++) put(base + i, next + i + 1);
        unsigned fp = 0, probes = 4000;
        for (unsigned i = 0; i < probes; i++) fp += has(base + fill + 1000 + i);
        // the configured rate, doubled, with slack far beyond sampling noise
        PBT_CHECK(c, fp <= 2 * r2 * probes + 60, "false-positive-rate", "%s filter of capacity %u, rate %g: %u of %u foreign items admitted", sc ? "scaling" : "counting", cap2, r2, fp, probes);
        for (unsigned i = 0; i < fill; i++) {
            Str s = item(base + i, 1);
            PBT_CHECK(c, sc ? scaling_bloom_check(s2, s.c_str(), s.size()) : counting_bloom_check(c2, s.c_str(), s.size()), "false-negative-full", "item %u of %u is denied", i, fill);
        }
        c.label("fp-rate");
        if (sc) free_scaling_bloom(s2); else free_counting_bloom(c2);
    }
}
int
main(int argc, char **argv)
{
    pbt::Property p{"C25",
                    "histories of adds (also repeated and in runs), removes of held items and membership tests on counting and "
                    "scaling filters of capacity 2..2000 and error rate 0.001..0.5, against a multiset; every held item must be "
                    "admitted after every step; 1 in 20 cases also fills a filter and bounds the share of foreign items "
                    "admitted; non-trivial: more than 10 adds, a remove, and for scaling filters at least one growth",
                    40000, 1500000, 100, 10, run};
    return pbt::run_main(argc, argv, p);
}
