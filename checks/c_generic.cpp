// C31: the type descriptors agree with the C types they describe.
#include "pbt.hpp"
extern "C" {
#include "pdc_generic.h"
}
using pbt::Case;
typedef std::string Str;
struct T {
    pdc_c_var_type_t t;
    const char *     en;
    size_t           size;
    const char *     name;
    int              kind; // 0 signed integer, 1 unsigned, 2 floating, 3 other
};
static const T TT[] = {{PDC_INT, "PDC_INT", sizeof(int), "int", 0}, {PDC_FLOAT, "PDC_FLOAT", sizeof(float), "float", 2},
    {PDC_DOUBLE, "PDC_DOUBLE", sizeof(double), "double", 2}, {PDC_CHAR, "PDC_CHAR", 1, "char", 3},
    {PDC_STRING, "PDC_STRING", sizeof(char *), "char*", 3}, {PDC_BOOLEAN, "PDC_BOOLEAN", 1, "bool", 3},
    {PDC_SHORT, "PDC_SHORT", sizeof(short), "short", 0}, {PDC_UINT, "PDC_UINT", sizeof(unsigned), "unsigned int", 1},
    {PDC_INT64, "PDC_INT64", 8, "int64_t", 0}, {PDC_UINT64, "PDC_UINT64", 8, "uint64_t", 1}, {PDC_INT16, "PDC_INT16", 2, "int16_t", 0},
    {PDC_INT8, "PDC_INT8", 1, "int8_t", 0}, {PDC_UINT8, "PDC_UINT8", 1, "uint8_t", 1}, {PDC_UINT16, "PDC_UINT16", 2, "uint16_t", 1},
    {PDC_INT32, "PDC_INT32", 4, "int32_t", 0}, {PDC_UINT32, "PDC_UINT32", 4, "uint32_t", 1}, {PDC_LONG, "PDC_LONG", sizeof(long), "long", 0},
    {PDC_VOID_PTR, "PDC_VOID_PTR", sizeof(void *), "void*", 3}, {PDC_SIZE_T, "PDC_SIZE_T", sizeof(size_t), "size_t", 1}};
// prints a value with the type's own format, as C does
static Str
show(pdc_c_var_type_t t, uint64_t v, double d)
{
    char        b[512];
    const char *f = DataTypeFormat[t];
    switch (t) {
        case PDC_INT: case PDC_INT32: snprintf(b, sizeof b, f, (int)v); break;
        case PDC_FLOAT: snprintf(b, sizeof b, f, (double)(float)d); break;
        case PDC_DOUBLE: snprintf(b, sizeof b, f, d); break;
        case PDC_SHORT: case PDC_INT16: snprintf(b, sizeof b, f, (int)(short)v); break;
        case PDC_INT8: snprintf(b, sizeof b, f, (int)(int8_t)v); break;
        case PDC_UINT8: snprintf(b, sizeof b, f, (int)(uint8_t)v); break;
        case PDC_UINT16: snprintf(b, sizeof b, f, (int)(uint16_t)v); break;
        case PDC_UINT: case PDC_UINT32: snprintf(b, sizeof b, f, (unsigned)v); break;
        case PDC_INT64: snprintf(b, sizeof b, f, (long long)v); break;
        case PDC_UINT64: snprintf(b, sizeof b, f, (unsigned long long)v); break;
        case PDC_LONG: snprintf(b, sizeof b, f, (long)v); break;
        case PDC_SIZE_T: snprintf(b, sizeof b, f, (size_t)v); break;
        default: return "";
    }
    return b;
}
static Str
want(const T &x, uint64_t v, double d)
{
    if (x.kind == 2) {
        char b[512];
        snprintf(b, sizeof b, "%f", x.t == PDC_FLOAT ? (double)(float)d : d);
        return b;
    }
    if (x.size < 8) v &= (1ull << (8 * x.size)) - 1;
    if (x.kind == 1) return std::to_string(v);
    int64_t s = x.size == 8 ? (int64_t)v : (int64_t)(v << (64 - 8 * x.size)) >> (64 - 8 * x.size);
    return std::to_string(s);
}
static void
run(Case &c)
{
    const T &x = TT[c.below(sizeof TT / sizeof *TT)];
    c.note("%s\n", x.en);
    PBT_CHECK(c, (int)PDC_TYPE_COUNT == (int)(sizeof TT / sizeof *TT), "count", "number of types is %d", (int)PDC_TYPE_COUNT);
    PBT_CHECK(c, get_size_by_dtype(x.t) == x.size, "size", "%s has size %zu, not %zu", x.en, x.size, get_size_by_dtype(x.t));
    char *e = get_enum_name_by_dtype(x.t), *nm = get_name_by_dtype(x.t);
    PBT_CHECK(c, e && !strcmp(e, x.en), "enum-name", "%s is called %s", x.en, e ? e : "NULL");
    PBT_CHECK(c, nm && !strcmp(nm, x.name), "name", "%s is named %s, not %s", x.en, nm ? nm : "NULL", x.name);
    PBT_CHECK(c, get_dtype_by_enum_name(x.en) == x.t, "by-name", "%s does not name its type", x.en);
    // a name that is not a type's name: edit one
    Str w = x.en;
    switch (c.below(4)) {
        case 0: w += "ABCDEFGHIJ_146832"[c.below(17)]; break;
        case 1: w.pop_back(); break;
        case 2: w[c.below(w.size())] ^= 32; break;
        default: w = w.substr(c.below(w.size())); break;
    }
    pdc_c_var_type_t r = PDC_UNKNOWN;
    for (auto &y : TT) if (w == y.en) r = y.t;
    char *wb = strdup(w.c_str());
    int   got = get_dtype_by_enum_name(wb);
    free(wb);
    PBT_CHECK(c, got == r, "by-name", "\"%s\" names type %d, expected %d", w.c_str(), got, (int)r);
    int bad = c.flip() ? PDC_TYPE_COUNT + (int)c.below(100) : -1 - (int)c.below(100);
    PBT_CHECK(c, !get_enum_name_by_dtype((pdc_c_var_type_t)bad) && !get_name_by_dtype((pdc_c_var_type_t)bad) && !get_size_by_dtype((pdc_c_var_type_t)bad),
              "no-type", "%d is taken for a type", bad);
    // sizes of values
    size_t cnt = c.below(6);
    std::vector<char *> strs;
    size_t              total = 0, first = 0;
    for (size_t i = 0; i < cnt; i++) {
        size_t l = c.below(12);
        char * p = (char *)malloc(l + 1);
        memset(p, 'a' + (int)i, l);
        p[l] = 0;
        strs.push_back(p);
        total += l + 1;
        if (!i) first = l + 1;
    }
    if (x.t == PDC_STRING) {
        if (cnt > 1) c.nontrivial();
        char **exact = (char **)malloc(sizeof(char *) * cnt + (cnt == 0));
        for (size_t i = 0; i < cnt; i++) exact[i] = strs[i];
        size_t g = get_size_by_class_n_type(exact, cnt, PDC_CLS_ARRAY, x.t);
        free(exact);
        PBT_CHECK(c, g == total, "array-size", "%zu strings take %zu bytes, not %zu", cnt, total, g);
        if (cnt) {
            g = get_size_by_class_n_type(strs[0], c.below(10), PDC_CLS_SCALAR, x.t);
            PBT_CHECK(c, g == first, "scalar-size", "a string of %zu bytes has size %zu", first, g);
        }
    }
    else {
        char dummy[8] = {0};
        PBT_CHECK(c, get_size_by_class_n_type(dummy, cnt, PDC_CLS_ARRAY, x.t) == cnt * x.size, "array-size", "%zu values of %s have the wrong size", cnt, x.en);
        PBT_CHECK(c, get_size_by_class_n_type(dummy, cnt, PDC_CLS_SCALAR, x.t) == x.size, "scalar-size", "a value of %s has the wrong size", x.en);
    }
    for (char *p : strs) free(p);
    // the format prints the value
    if (x.kind < 3) {
        uint64_t v = c.flip() ? c.bits(64) : c.bits((int)(8 * x.size)) ^ (c.flip() ? 1ull << (8 * x.size - 1) : 0);
        double   d = (double)(int64_t)c.bits(40) / 1024.0 * (c.flip() ? -1 : 1);
        c.nontrivial();
        Str s = show(x.t, v, d), ws = want(x, v, d);
        PBT_CHECK(c, s == ws, "format", "%s prints %s as %s", x.en, ws.c_str(), s.c_str());
    }
}
int
main(int argc, char **argv)
{
    pbt::Property p{"C31", "each case takes one type and checks its descriptors, a near-miss name, sizes of a generated scalar and array, and its print format on a generated value; non-trivial: an array of several strings or a numeric value", 20000, 1000000, 500, 20, run};
    return pbt::run_main(argc, argv, p);
}
