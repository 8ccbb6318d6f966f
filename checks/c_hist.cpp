// C12: histograms count every element exactly once, in the bin that contains it; merging and copying lose nothing.
#include "pbt.hpp"
#include <cmath>
#include <cfloat>
#include <memory>
extern "C" {
#include "pdc_public.h"
pdc_histogram_t *PDC_gen_hist(pdc_var_type_t dtype, uint64_t n, void *data);
pdc_histogram_t *PDC_create_hist(pdc_var_type_t dtype, int nbin, double min, double max);
perr_t           PDC_hist_incr_all(pdc_histogram_t *hist, pdc_var_type_t dtype, uint64_t n, void *data);
pdc_histogram_t *PDC_dup_hist(pdc_histogram_t *hist);
pdc_histogram_t *PDC_merge_hist(int n, pdc_histogram_t **hists);
void             PDC_free_hist(pdc_histogram_t *hist);
void             PDC_copy_hist(pdc_histogram_t *to, pdc_histogram_t *from);
}
using pbt::Case;

static double
flt(Case &c)
{
    double m = (double)c.range(-1000, 1000) / (c.flip() ? 1 : 64);
    int    e = c.weighted({6, 2, 2, 1, 1});
    return e == 0 ? m : e == 1 ? ldexp(m, c.range(-30, 30)) : e == 2 ? m / 3 : e == 3 ? m + 1e6 : ldexp(m, c.range(-120, 100));
}
template <class T> struct Gen {
    static T one(Case &c, double base, double width)
    {
        double u = (double)c.below(1 << 16) / (1 << 16);
        return (T)(base + u * width);
    }
};
struct Data {
    std::vector<uint8_t> raw;
    std::vector<double>  val;
    uint64_t             n = 0;
};
template <class T> static Data gen_float(Case &c)
{
    Data   d;
    int    shape = c.weighted({4, 2, 2, 2, 1});
    double base = flt(c), w = shape == 0 ? fabs(flt(c)) : shape == 1 ? 0 : shape == 2 ? ldexp(1, c.range(-40, 10)) * std::max(1e-300, fabs(base)) : fabs(flt(c));
    d.n = 1 + c.below(c.chance(1, 4) ? 400 : 40);
    for (uint64_t i = 0; i < d.n; i++) {
        T v = shape == 3 ? (T)flt(c) : shape == 4 ? (T)(base + (double)c.below(4) * w / 3) : Gen<T>::one(c, base, w);
        if (!std::isfinite(v)) v = 0;
        d.raw.insert(d.raw.end(), (uint8_t *)&v, (uint8_t *)(&v + 1));
        d.val.push_back((double)v);
    }
    return d;
}
template <class T> static Data gen_int(Case &c)
{
    Data d;
    int  shape = c.weighted({4, 2, 2, 2});
    T    base = shape == 0 ? (T)c.range(-100, 100) : shape == 1 ? (T)c.bits(64) : shape == 2 ? std::numeric_limits<T>::max() - (T)c.below(100)
                                                                          : std::numeric_limits<T>::min() + (T)c.below(100);
    uint64_t span = c.pick<uint64_t>({1, 2, 7, 30, 49, 50, 100, 1000, 100000, 1u << 30});
    d.n = 1 + c.below(c.chance(1, 4) ? 400 : 40);
    for (uint64_t i = 0; i < d.n; i++) {
        T v = c.chance(1, 30) ? (T)c.bits(64) : (T)((uint64_t)base + c.below(span));
        d.raw.insert(d.raw.end(), (uint8_t *)&v, (uint8_t *)(&v + 1));
        d.val.push_back((double)v);
    }
    return d;
}
static Data
gen(Case &c, pdc_var_type_t t)
{
    switch (t) {
        case PDC_FLOAT: return gen_float<float>(c);
        case PDC_DOUBLE: return gen_float<double>(c);
        case PDC_INT: return gen_int<int>(c);
        case PDC_UINT: return gen_int<uint32_t>(c);
        case PDC_INT64: return gen_int<int64_t>(c);
        default: return gen_int<uint64_t>(c);
    }
}
static std::string
show(pdc_histogram_t *h)
{
    std::string s;
    char        b[120];
    for (int i = 0; i < h->nbin && i < 8; i++) snprintf(b, sizeof b, " [%g,%g):%llu", h->range[2 * i], h->range[2 * i + 1], (unsigned long long)h->bin[i]), s += b;
    snprintf(b, sizeof b, " ... [%g,%g]:%llu, %d bins of %g", h->range[2 * h->nbin - 2], h->range[2 * h->nbin - 1], (unsigned long long)h->bin[h->nbin - 1], h->nbin, h->incr);
    return s + b;
}
// the edges of the bins are in order and leave no gap
static void
edges(Case &c, pdc_histogram_t *h)
{
    PBT_CHECK(c, h->nbin >= 2, "bins", "%d bins", h->nbin);
    PBT_CHECK(c, std::isfinite(h->incr) && h->incr > 0, "width", "bin width %g", h->incr);
    for (int i = 0; i < h->nbin; i++) {
        PBT_CHECK(c, h->range[2 * i] <= h->range[2 * i + 1], "edge-order", "bin %d of %d is [%.17g,%.17g):%s", i, h->nbin, h->range[2 * i], h->range[2 * i + 1], show(h).c_str());
        if (i) PBT_CHECK(c, h->range[2 * i] == h->range[2 * i - 1], "edge-gap", "bin %d of %d starts at %.17g, the one before ends at %.17g:%s", i, h->nbin, h->range[2 * i], h->range[2 * i - 1], show(h).c_str());
        if (i && i < h->nbin - 1)
            PBT_CHECK(c, h->range[2 * i] < h->range[2 * i + 1], "edge-empty", "bin %d of %d is empty at %.17g", i, h->nbin, h->range[2 * i]);
    }
}
static uint64_t
count(pdc_histogram_t *h)
{
    uint64_t n = 0;
    for (int i = 0; i < h->nbin; i++) n += h->bin[i];
    return n;
}
// every bin counts the elements inside it
static void
exact(Case &c, pdc_histogram_t *h, const std::vector<double> &v, const char *what)
{
    edges(c, h);
    PBT_CHECK(c, count(h) == v.size(), "total", "%s of %zu elements counts %llu:%s", what, v.size(), (unsigned long long)count(h), show(h).c_str());
    double lo = h->range[0], hi = h->range[2 * h->nbin - 1];
    for (double x : v) PBT_CHECK(c, x >= lo && x <= hi, "range", "%s does not reach element %.17g:%s", what, x, show(h).c_str());
    for (int i = 0; i < h->nbin; i++) {
        uint64_t n = 0;
        for (double x : v)
            if (x >= h->range[2 * i] && (x < h->range[2 * i + 1] || i == h->nbin - 1)) n++;
        PBT_CHECK(c, h->bin[i] == n, "bin", "%s: bin %d [%.17g,%.17g) counts %llu elements, there are %llu:%s", what, i, h->range[2 * i], h->range[2 * i + 1],
                  (unsigned long long)h->bin[i], (unsigned long long)n, show(h).c_str());
    }
}
static void
same(Case &c, pdc_histogram_t *a, pdc_histogram_t *b, const char *what)
{
    PBT_CHECK(c, a->nbin == b->nbin && a->incr == b->incr && a->dtype == b->dtype && !memcmp(a->range, b->range, sizeof(double) * 2 * a->nbin) &&
                     !memcmp(a->bin, b->bin, sizeof(uint64_t) * a->nbin), "copy", "%s differs from the original", what);
}
static void
run(Case &c)
{
    pdc_var_type_t                t = c.pick<pdc_var_type_t>({PDC_FLOAT, PDC_DOUBLE, PDC_INT, PDC_UINT, PDC_INT64, PDC_UINT64});
    int                           k = 1 + (int)c.weighted({4, 3, 2, 1});
    std::vector<Data>             d;
    std::vector<pdc_histogram_t *> h;
    srand((unsigned)c.below(1000));
    for (int i = 0; i < k; i++) {
        d.push_back(gen(c, t));
        Data &x = d.back();
        std::string s;
        for (size_t j = 0; j < x.n && j < 40; j++) { char b[40]; snprintf(b, sizeof b, " %.17g", x.val[j]); s += b; }
        c.note("type %d, %llu elements:%s%s\n", (int)t, (unsigned long long)x.n, s.c_str(), x.n > 40 ? " ..." : "");
        pdc_histogram_t *g;
        if (c.chance(1, 4)) { // bounds and number of bins given by the caller
            double lo = *std::min_element(x.val.begin(), x.val.end()), hi = *std::max_element(x.val.begin(), x.val.end());
            int    nb = 4 + (int)c.below(60);
            if (c.flip()) { double m = x.val[c.below(x.n)]; lo = std::min(lo, m), hi = std::max(m, lo); }
            g = PDC_create_hist(t, nb, lo, hi);
            c.note("  %d bins from %.17g to %.17g\n", nb, lo, hi);
            PBT_CHECK(c, g, "create", "creating a histogram of %d bins from %g to %g failed", nb, lo, hi);
            edges(c, g);
            std::vector<double> seen;
            size_t              ts = x.raw.size() / x.n, at = 0;
            while (at < x.n) { // in pieces
                size_t m = 1 + c.below(x.n - at);
                PBT_CHECK(c, PDC_hist_incr_all(g, t, m, x.raw.data() + at * ts) == SUCCEED, "incr", "counting %zu elements failed", m);
                seen.insert(seen.end(), x.val.begin() + at, x.val.begin() + at + m);
                at += m;
                exact(c, g, seen, "histogram with given bounds");
            }
        }
        else {
            // an exact-size copy, so that reading past it is noticed
            std::unique_ptr<uint8_t[]> p(new uint8_t[x.raw.size()]);
            memcpy(p.get(), x.raw.data(), x.raw.size());
            g = PDC_gen_hist(t, x.n, p.get());
            PBT_CHECK(c, g, "gen", "no histogram of %llu elements", (unsigned long long)x.n);
            exact(c, g, x.val, "histogram");
            PBT_CHECK(c, g->dtype == t, "dtype", "the histogram has type %d", (int)g->dtype);
        }
        h.push_back(g);
        if (x.n > 3 && *std::min_element(x.val.begin(), x.val.end()) < *std::max_element(x.val.begin(), x.val.end())) c.nontrivial();
    }
    if (c.flip()) {
        pdc_histogram_t *e = PDC_dup_hist(h[0]);
        PBT_CHECK(c, e, "dup", "duplicating failed");
        same(c, e, h[0], "duplicate");
        pdc_histogram_t z;
        memset(&z, 0, sizeof z);
        PDC_copy_hist(&z, e);
        PDC_free_hist(e);
        same(c, &z, h[0], "copy");
        if (k > 1 && c.flip()) { // over an earlier one
            PDC_copy_hist(&z, h[1]);
            same(c, &z, h[1], "copy over another");
        }
        free(z.range);
        free(z.bin);
    }
    if (c.chance(1, 4)) { // what cannot be counted is refused and changes nothing
        pdc_var_type_t bad = c.pick<pdc_var_type_t>({PDC_UNKNOWN, PDC_CHAR, PDC_STRING, PDC_BOOLEAN, PDC_SHORT, PDC_INT8, PDC_UINT8, PDC_INT16, PDC_VOID_PTR, PDC_VOID_PTR});
        uint64_t       z[8] = {1, 2, 3, 4, 5, 6, 7, 8};
        PBT_CHECK(c, PDC_gen_hist(bad, 8, z) == NULL, "unsupported", "a histogram of type %d was made", (int)bad);
        PBT_CHECK(c, PDC_gen_hist(t, 0, z) == NULL, "empty", "a histogram of nothing was made");
        PBT_CHECK(c, PDC_create_hist(t, (int)c.below(4), 0, 1) == NULL, "few-bins", "a histogram of too few bins was made");
        PBT_CHECK(c, PDC_create_hist(t, 10, 1, 0.5) == NULL, "order", "a histogram with exchanged bounds was made");
        pdc_var_type_t o = t == PDC_INT ? PDC_UINT : PDC_INT;
        pdc_histogram_t *e = PDC_dup_hist(h[0]);
        PBT_CHECK(c, PDC_hist_incr_all(h[0], o, 2, z) != SUCCEED, "other-type", "counting elements of another type succeeded");
        PBT_CHECK(c, PDC_hist_incr_all(h[0], t, 0, z) != SUCCEED, "none", "counting no elements succeeded");
        same(c, h[0], e, "after a refused count, the histogram");
        if (k > 1) {
            h[0]->dtype = o;
            PBT_CHECK(c, PDC_merge_hist(k, h.data()) == NULL, "merge-types", "histograms of different types were merged");
            h[0]->dtype = t;
        }
        PDC_free_hist(e);
    }
    // merging
    std::vector<pdc_histogram_t *> orig;
    for (auto *x : h) orig.push_back(PDC_dup_hist(x));
    pdc_histogram_t *m = PDC_merge_hist(k, h.data());
    PBT_CHECK(c, m, "merge", "merging %d histograms failed", k);
    for (int i = 0; i < k; i++) same(c, h[i], orig[i], "a merged histogram");
    edges(c, m);
    uint64_t tot = 0;
    double   inc = 0;
    for (auto &x : d) {
        tot += x.n;
        for (double v : x.val)
            PBT_CHECK(c, v >= m->range[0] && v <= m->range[2 * m->nbin - 1], "merge-range", "the merged histogram does not reach element %.17g:%s", v, show(m).c_str());
    }
    for (auto *x : h) inc = std::max(inc, x->incr);
    PBT_CHECK(c, count(m) == tot, "merge-total", "merged histograms of %llu elements count %llu", (unsigned long long)tot, (unsigned long long)count(m));
    PBT_CHECK(c, m->incr == inc, "merge-width", "merged bins are %g wide, the widest given %g", m->incr, inc);
    // elements of a given bin are counted in a bin that overlaps it: bounds on every cumulative count
    uint64_t cum = 0;
    for (int b = 0; b < m->nbin; b++) {
        cum += m->bin[b];
        double   e    = m->range[2 * b + 1];
        uint64_t must = 0, may = 0;
        for (auto *x : h)
            for (int j = 0; j < x->nbin; j++) {
                if (x->range[2 * j + 1] < e) must += x->bin[j];
                if (x->range[2 * j] <= e) may += x->bin[j];
            }
        PBT_CHECK(c, cum >= must && cum <= may, "merge-bin", "the merged histogram counts %llu elements up to %.17g; it has at least %llu and at most %llu:%s",
                  (unsigned long long)cum, e, (unsigned long long)must, (unsigned long long)may, show(m).c_str());
    }
    if (k > 1) c.label("merged");
    PDC_free_hist(m);
    for (auto *x : h) PDC_free_hist(x);
    for (auto *x : orig) PDC_free_hist(x);
}
int
main(int argc, char **argv)
{
    pbt::Property p{"C12", "each case counts 1-4 generated arrays of one type, whole or in pieces, and copies and merges the histograms; non-trivial: an array has more than three elements that are not all equal",
                    150000, 3000000, 50, 20, run};
    return pbt::run_main(argc, argv, p);
}
