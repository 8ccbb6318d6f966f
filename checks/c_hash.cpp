// C33: the hash functions behind placement, filters and tables are the published functions of exactly the given bytes.
#include "pbt.hpp"
#include <cmath>
extern "C" {
#include "dart_algo.h"
#include "pdc_hash.h"
void MurmurHash3_x64_128(const void *key, const int len, const uint32_t seed, void *out);
}
using pbt::Case;
typedef std::vector<uint8_t> Bytes;
typedef std::string          Str;

// ---- references, written from the published descriptions ---------------------------------------------------------
static uint32_t rl(uint32_t x, int n) { return (x << n) | (x >> (32 - n)); }
static uint64_t rl64(uint64_t x, int n) { return (x << n) | (x >> (64 - n)); }
static Bytes
ref_md5(const Bytes &m) // RFC 1321
{
    Bytes    p(m);
    uint64_t bits = (uint64_t)m.size() * 8;
    p.push_back(0x80);
    while (p.size() % 64 != 56) p.push_back(0);
    for (int i = 0; i < 8; i++) p.push_back((uint8_t)(bits >> (8 * i)));
    uint32_t            A = 0x67452301, B = 0xefcdab89, C = 0x98badcfe, D = 0x10325476;
    static const int    S[4][4] = {{7, 12, 17, 22}, {5, 9, 14, 20}, {4, 11, 16, 23}, {6, 10, 15, 21}};
    for (size_t o = 0; o < p.size(); o += 64) {
        uint32_t X[16], a = A, b = B, c = C, d = D;
        for (int i = 0; i < 16; i++)
            X[i] = p[o + 4 * i] | p[o + 4 * i + 1] << 8 | p[o + 4 * i + 2] << 16 | (uint32_t)p[o + 4 * i + 3] << 24;
        for (int i = 0; i < 64; i++) {
            int      r = i / 16, k = r == 0 ? i : r == 1 ? (1 + 5 * i) % 16 : r == 2 ? (5 + 3 * i) % 16 : (7 * i) % 16;
            uint32_t F = r == 0 ? (b & c) | (~b & d) : r == 1 ? (b & d) | (c & ~d) : r == 2 ? b ^ c ^ d : c ^ (b | ~d);
            uint32_t T = (uint32_t)(int64_t)(std::fabs(std::sin((double)(i + 1))) * 4294967296.0);
            uint32_t n = b + rl(a + F + X[k] + T, S[r][i % 4]);
            a = d; d = c; c = b; b = n;
        }
        A += a; B += b; C += c; D += d;
    }
    Bytes out;
    for (uint32_t v : {A, B, C, D})
        for (int i = 0; i < 4; i++) out.push_back((uint8_t)(v >> (8 * i)));
    return out;
}
static uint32_t
ref_mm32(const Bytes &m, uint32_t seed) // MurmurHash3_x86_32
{
    uint32_t h = seed;
    size_t   n = m.size(), i = 0;
    auto     mix = [](uint32_t k) { k *= 0xcc9e2d51u; k = rl(k, 15); return k * 0x1b873593u; };
    for (; i + 4 <= n; i += 4) {
        uint32_t k = 0;
        for (int j = 3; j >= 0; j--) k = k << 8 | m[i + j];
        h ^= mix(k);
        h = rl(h, 13) * 5 + 0xe6546b64u;
    }
    uint32_t k = 0;
    for (size_t j = n; j > i; j--) k = k << 8 | m[j - 1];
    if (n > i) h ^= mix(k);
    h ^= (uint32_t)n;
    h ^= h >> 16; h *= 0x85ebca6bu; h ^= h >> 13; h *= 0xc2b2ae35u; h ^= h >> 16;
    return h;
}
static void
ref_mm128(const Bytes &m, uint32_t seed, uint64_t out[2]) // MurmurHash3_x64_128
{
    const uint64_t c1 = 0x87c37b91114253d5ull, c2 = 0x4cf5ad432745937full;
    uint64_t       h1 = seed, h2 = seed;
    size_t         n = m.size(), i = 0;
    auto           word = [&](size_t o, size_t e) { uint64_t k = 0; for (size_t j = std::min(o + 8, e); j > o; j--) k = k << 8 | m[j - 1]; return k; };
    auto           m1 = [&](uint64_t k) { return rl64(k * c1, 31) * c2; };
    auto           m2 = [&](uint64_t k) { return rl64(k * c2, 33) * c1; };
    for (; i + 16 <= n; i += 16) {
        h1 ^= m1(word(i, n)); h1 = (rl64(h1, 27) + h2) * 5 + 0x52dce729;
        h2 ^= m2(word(i + 8, n)); h2 = (rl64(h2, 31) + h1) * 5 + 0x38495ab5;
    }
    if (n > i + 8) h2 ^= m2(word(i + 8, n));
    if (n > i) h1 ^= m1(word(i, n));
    h1 ^= n; h2 ^= n; h1 += h2; h2 += h1;
    auto fm = [](uint64_t k) { k ^= k >> 33; k *= 0xff51afd7ed558ccdull; k ^= k >> 33; k *= 0xc4ceb9fe1a85ec53ull; return k ^ k >> 33; };
    h1 = fm(h1); h2 = fm(h2); h1 += h2; h2 += h1;
    out[0] = h1; out[1] = h2;
}
static uint32_t
ref_djb2(const Bytes &m)
{
    uint32_t h = 5381;
    for (uint8_t b : m) h = h * 33 + b;
    return h;
}

// the bytes in a block of exactly their size at a generated alignment
struct Placed {
    uint8_t *base, *p;
    Placed(const Bytes &m, size_t off) : base((uint8_t *)malloc(m.size() + off + (m.size() + off == 0))), p(base + off)
    {
        if (m.size()) memcpy(p, m.data(), m.size());
    }
    Placed(const Placed &) = delete;
    ~Placed() { free(base); }
};
static Str
hex(const Bytes &b)
{
    Str s; char t[4];
    for (size_t i = 0; i < b.size() && i < 40; i++) { snprintf(t, sizeof t, "%02x", b[i]); s += t; }
    return s + (b.size() > 40 ? "..." : "");
}

static void
run(Case &c)
{
    // lengths around every block boundary of the functions
    size_t n = c.weighted({4, 3, 2, 1});
    n = n == 0 ? c.below(20) : n == 1 ? c.below(70) : n == 2 ? 48 + c.below(90) : c.below(600);
    bool  text = c.flip();
    Bytes m(n);
    for (auto &b : m) b = text ? 32 + c.below(95) : c.below(256);
    uint32_t seed = c.flip() ? 0 : (uint32_t)c.bits(32);
    size_t   off = c.below(16);
    c.note("%zu bytes %s, offset %zu, seed %u\n", n, hex(m).c_str(), off, seed);
    if (n % 4 || n % 64 > 55) c.nontrivial();
    Placed P(m, off);
    {
        uint8_t d[16];
        md5(P.p, n, d);
        Bytes got(d, d + 16), want = ref_md5(m);
        PBT_CHECK(c, got == want, "md5", "md5 gives %s, expected %s", hex(got).c_str(), hex(want).c_str());
    }
    {
        uint32_t g = murmur3_32(P.p, n, seed), w = ref_mm32(m, seed);
        PBT_CHECK(c, g == w, "murmur3_32", "murmur3_32 gives %08x, expected %08x", g, w);
    }
    {
        uint64_t g[2], w[2];
        MurmurHash3_x64_128(P.p, (int)n, seed, g);
        ref_mm128(m, seed, w);
        PBT_CHECK(c, g[0] == w[0] && g[1] == w[1], "murmur3_128", "MurmurHash3_x64_128 gives %llx %llx, expected %llx %llx",
                  (unsigned long long)g[0], (unsigned long long)g[1], (unsigned long long)w[0], (unsigned long long)w[1]);
    }
    {
        uint8_t b[4];
        to_bytes(seed, b);
        PBT_CHECK(c, b[0] == (seed & 255) && b[3] == seed >> 24 && to_int32(b) == seed, "bytes", "to_bytes/to_int32 do not round trip %u", seed);
    }
    // the string functions: no zero bytes
    Bytes s;
    for (uint8_t b : m) if (b) s.push_back(b);
    Bytes z(s);
    z.push_back(0);
    Placed Z(z, off);
    Bytes  low;
    for (uint8_t b : s) low.push_back(b >= 'A' && b <= 'Z' ? b + 32 : b);
    PBT_CHECK(c, string_hash(Z.p) == ref_djb2(s), "string_hash", "string_hash of %s differs from djb2", hex(s).c_str());
    PBT_CHECK(c, string_nocase_hash(Z.p) == ref_djb2(low), "string_nocase_hash", "string_nocase_hash of %s differs from djb2 in lower case", hex(s).c_str());
    size_t take = c.below(s.size() + 1);
    if (text) {
        Bytes  pre(s.begin(), s.begin() + take);
        Placed Q(pre, off); // djb2_hash is given the length: the key need not be terminated
        PBT_CHECK(c, djb2_hash((char *)Q.p, (int)take) == ref_djb2(pre), "djb2", "djb2_hash of %zu bytes %s is wrong", take, hex(pre).c_str());
    }
    {
        size_t   pl = take + (c.chance(1, 4) ? c.below(8) : 0); // a prefix length beyond the word means the whole word
        Bytes    pre(s.begin(), s.begin() + std::min(pl, s.size()));
        Bytes    d = ref_md5(pre);
        uint32_t w = d[0] | d[1] << 8 | d[2] << 16 | (uint32_t)d[3] << 24, g = md5_hash((int)pl, (char *)Z.p);
        PBT_CHECK(c, g == w, "md5_hash", "md5_hash of the first %zu bytes of %s gives %08x, expected %08x", pl, hex(s).c_str(), g, w);
    }
    {
        int      i = (int)seed;
        uint64_t u = ((uint64_t)seed << 32) | (uint32_t)c.bits(32), u2 = u;
        int      i2 = i;
        PBT_CHECK(c, int_hash(&i) == int_hash(&i2) && ui64_hash(&u) == ui64_hash(&u2) && pointer_hash(&u) == pointer_hash(&u), "equal", "equal keys hash differently");
    }
}
int
main(int argc, char **argv)
{
    pbt::Property p{"C33", "each case hashes one generated byte string (lengths around every block boundary, any alignment, exact-size buffers) with every function and compares with references written from the published descriptions; non-trivial: a length that leaves a partial block", 40000, 4000000, 200, 20, run};
    return pbt::run_main(argc, argv, p);
}
