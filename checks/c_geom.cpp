// C26: region geometry - overlap, containment and (sub)region copies agree with element-by-element enumeration.
#include "pbt.hpp"
extern "C" {
#include "pdc_region.h"
}
using pbt::Case;
typedef std::vector<uint64_t> V;

static std::string
show(const V &o, const V &s)
{
    std::string r = "[";
    for (size_t i = 0; i < o.size(); i++) r += (i ? "," : "") + std::to_string(o[i]) + "+" + std::to_string(s[i]);
    return r + "]";
}
// visit every element of the region (offset,size)
static void
each(const V &o, const V &s, const std::function<void(const V &)> &f)
{
    V p(o);
    for (;;) {
        f(p);
        size_t d = o.size();
        for (;;) {
            if (d == 0) return;
            d--;
            if (++p[d] < o[d] + s[d]) break;
            p[d] = o[d];
            if (d == 0) return;
        }
    }
}
static uint64_t
lin(const V &p, const V &o, const V &s)
{
    uint64_t r = 0;
    for (size_t i = 0; i < p.size(); i++) r = r * s[i] + (p[i] - o[i]);
    return r;
}
static bool
inside(const V &p, const V &o, const V &s)
{
    for (size_t i = 0; i < p.size(); i++)
        if (p[i] < o[i] || p[i] >= o[i] + s[i]) return false;
    return true;
}
static void
run(Case &c)
{
    int      nd   = 1 + (int)c.weighted({2, 3, 3});
    uint64_t lim  = c.chance(1, 12) ? (nd == 1 ? 300 : nd == 2 ? 40 : 14) : nd == 1 ? 20 : nd == 2 ? 9 : 6;
    uint64_t base = c.pick<uint64_t>({0, 0, 0, 1, 1000000007ull, (1ull << 40)});
    uint64_t unit = c.pick<uint64_t>({1, 2, 4, 8, 3, 16});
    V o1, s1, o2, s2;
    for (int i = 0; i < nd; i++) {
        o1.push_back(base + c.below(lim));
        s1.push_back(1 + c.below(lim));
    }
    int how = c.weighted({5, 2, 2, 1});
    for (int i = 0; i < nd; i++) {
        switch (how) {
            case 0: o2.push_back(base + c.below(lim)); s2.push_back(1 + c.below(lim)); break;
            case 1: { uint64_t d = c.below(s1[i]); o2.push_back(o1[i] + d); s2.push_back(1 + c.below(s1[i] - d)); break; } // inside
            case 2: { // touching or nearly so
                int64_t d = c.range(-1, 1);
                uint64_t n = 1 + c.below(lim);
                if (c.flip() && o1[i] + d >= n) o2.push_back(o1[i] + d - n);
                else o2.push_back(o1[i] + s1[i] + d);
                s2.push_back(n);
                break;
            }
            default: o2.push_back(o1[i]); s2.push_back(s1[i]);
        }
    }
    c.note("%dD unit %lu: A=%s B=%s\n", nd, (unsigned long)unit, show(o1, s1).c_str(), show(o2, s2).c_str());
    V    io, is;
    bool ov = true, contained = true;
    {
        V lo, hi;
        uint64_t cnt = 0, outside = 0;
        each(o2, s2, [&](const V &p) {
            if (!inside(p, o1, s1)) { outside++; return; }
            if (!cnt++) lo = hi = p;
            for (int i = 0; i < nd; i++) { lo[i] = std::min(lo[i], p[i]); hi[i] = std::max(hi[i], p[i]); }
        });
        ov        = cnt > 0;
        contained = outside == 0;
        if (ov) for (int i = 0; i < nd; i++) { io.push_back(lo[i]); is.push_back(hi[i] - lo[i] + 1); }
    }
    // overlap detection, both ways round
    for (int sw = 0; sw < 2; sw++) {
        V &a = sw ? o2 : o1, &as = sw ? s2 : s1, &b = sw ? o1 : o2, &bs = sw ? s1 : s2;
        V ca = a, cas = as, cb = b, cbs = bs;
        int r = check_overlap(nd, a.data(), as.data(), b.data(), bs.data());
        PBT_CHECK(c, (r != 0) == ov, "overlap", "overlap test says %d, the regions share %s element", r, ov ? "an" : "no");
        uint64_t *oo = (uint64_t *)1, *os = (uint64_t *)1;
        PDC_region_overlap_detect(nd, a.data(), as.data(), b.data(), bs.data(), &oo, &os);
        PBT_CHECK(c, (oo != NULL) == ov, "overlap-detect", "overlap region %s but the regions share %s element", oo ? "returned" : "absent", ov ? "an" : "no");
        if (ov) {
            PBT_CHECK(c, V(oo, oo + nd) == io && V(os, os + nd) == is, "overlap-region", "overlap is %s, expected %s", show(V(oo, oo + nd), V(os, os + nd)).c_str(), show(io, is).c_str());
            free(oo);
        }
        PBT_CHECK(c, a == ca && as == cas && b == cb && bs == cbs, "inputs-changed", "overlap detection changed its inputs");
    }
    // containment: B inside A
    if (ov) {
        int r = detect_region_contained(o2.data(), s2.data(), o1.data(), s1.data(), nd);
        PBT_CHECK(c, (r != 0) == contained, "contained", "containment test says %d, expected %d", r, (int)contained);
    }
    // copying the shared part of A into B
    auto volume = [](const V &s) { uint64_t n = 1; for (auto x : s) n *= x; return n; };
    uint64_t n1 = volume(s1) * unit, n2 = volume(s2) * unit;
    char *A = (char *)malloc(n1), *B = (char *)malloc(n2);
    for (uint64_t i = 0; i < n1; i++) A[i] = (char)(1 + (i * 7 + i / 251) % 120);
    for (uint64_t i = 0; i < n2; i++) B[i] = (char)(128 + (i * 5 + i / 127) % 120);
    if (ov) {
        std::vector<char> want(B, B + n2), keep(A, A + n1);
        each(io, is, [&](const V &p) { memcpy(&want[lin(p, o2, s2) * unit], A + lin(p, o1, s1) * unit, unit); });
        memcpy_overlap_subregion(nd, unit, A, o1.data(), s1.data(), B, o2.data(), s2.data(), io.data(), is.data());
        PBT_CHECK(c, !memcmp(B, want.data(), n2), "copy-overlap", "target after copying the overlap %s differs from the element-wise copy", show(io, is).c_str());
        PBT_CHECK(c, !memcmp(A, keep.data(), n1), "copy-overlap-source", "the source changed");
        c.label(contained ? "contained" : "partial overlap");
        if (!contained && volume(is) > 1 && nd > 1) c.nontrivial();
    }
    else c.label("disjoint");
    free(A);
    free(B);
    // gather / scatter between a region and a packed sub-region buffer
    V so, ss;
    for (int i = 0; i < nd; i++) { so.push_back(c.below(s1[i])); ss.push_back(1 + c.below(s1[i] - so[i])); }
    uint64_t sub = volume(ss) * unit;
    char *   R = (char *)malloc(n1), *S = (char *)malloc(sub);
    V        zero(nd, 0);
    bool     gather = c.flip();
    for (uint64_t i = 0; i < n1; i++) R[i] = (char)(1 + (i * 11 + i / 241) % 120);
    for (uint64_t i = 0; i < sub; i++) S[i] = (char)(128 + (i * 3) % 120);
    std::vector<char> wr(R, R + n1), ws(S, S + sub);
    each(so, ss, [&](const V &p) {
        char *x = &wr[lin(p, zero, s1) * unit], *y = &ws[lin(p, so, ss) * unit];
        if (gather) memcpy(y, x, unit); else memcpy(x, y, unit);
    });
    memcpy_subregion(nd, unit, gather ? PDC_WRITE : PDC_READ, R, s1.data(), S, so.data(), ss.data());
    c.note("%s sub-region %s\n", gather ? "gather" : "scatter", show(so, ss).c_str());
    PBT_CHECK(c, !memcmp(R, wr.data(), n1), gather ? "gather-source" : "scatter", "the region buffer differs from the element-wise %s", gather ? "gather" : "scatter");
    PBT_CHECK(c, !memcmp(S, ws.data(), sub), gather ? "gather" : "scatter-source", "the sub-region buffer differs from the element-wise %s", gather ? "gather" : "scatter");
    free(R);
    free(S);
}
int
main(int argc, char **argv)
{
    pbt::Property p{"C26",
                    "pairs of 1-3 dimensional regions (random, nested, touching, equal; offsets up to 2^40; element sizes "
                    "1..16) against enumeration of their elements: overlap, intersection, containment, overlap copy, "
                    "sub-region gather and scatter; non-trivial: 2D/3D partial overlap of more than one element",
                    1000000, 20000000, 500, 5, run};
    return pbt::run_main(argc, argv, p);
}
