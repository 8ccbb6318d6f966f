// C24: sequence containers (deque, stack, vector, intrusive list) behave as the abstract sequence.
#include "pbt.hpp"
#include <deque>
extern "C" {
#include "pdc_deque.h"
#include "pdc_stack.h"
#include "pdc_vector.h"
#include "pdc_linkedlist.h"
}
using pbt::Case;

static void *val(uint64_t i) { return (void *)(uintptr_t)(i + 1); }

static size_t
len(Case &c)
{
    // long runs are needed to cross the growth and shrink thresholds of the ring buffer
    switch (c.weighted({4, 3, 2, 1})) {
        case 0: return 1 + c.below(8);
        case 1: return 1 + c.below(20);
        case 2: return 1 + c.below(70);
        default: return 1 + c.below(300);
    }
}

static void
run_deque(Case &c)
{
    PDC_deque_t         d;
    std::deque<void *>  m;
    uint64_t            next = 0;
    size_t              maxsz = 0, wraps = 0;
    memset(&d, 0xA7, sizeof d);
    PDC_deque_init(&d);
    c.note("deque:");
    c.list(1, 12, 60, [&](size_t) {
        unsigned op = c.weighted({3, 3, 2, 2});
        size_t   n  = len(c);
        c.note(" %s*%zu", op == 0 ? "push_back" : op == 1 ? "push_front" : op == 2 ? "pop_front" : "pop_back", n);
        for (size_t i = 0; i < n; i++) {
            void *got = nullptr, *want = nullptr;
            switch (op) {
                case 0: PDC_deque_push_back(&d, val(next)); m.push_back(val(next)); next++; break;
                case 1: PDC_deque_push_front(&d, val(next)); m.push_front(val(next)); next++; break;
                case 2:
                    got = PDC_deque_pop_front(&d);
                    if (!m.empty()) { want = m.front(); m.pop_front(); }
                    PBT_CHECK(c, got == want, "deque-pop-front", "pop_front returned %p, expected %p (size %zu)", got, want, m.size());
                    break;
                default:
                    got = PDC_deque_pop_back(&d);
                    if (!m.empty()) { want = m.back(); m.pop_back(); }
                    PBT_CHECK(c, got == want, "deque-pop-back", "pop_back returned %p, expected %p (size %zu)", got, want, m.size());
            }
            PBT_CHECK(c, d.size == m.size(), "deque-size", "size %zu, expected %zu", d.size, m.size());
            maxsz = std::max(maxsz, m.size());
            if (op == 1) wraps++;
        }
    });
    bool front = c.flip();
    while (!m.empty()) {
        void *want = front ? m.front() : m.back();
        void *got  = front ? PDC_deque_pop_front(&d) : PDC_deque_pop_back(&d);
        if (front) m.pop_front(); else m.pop_back();
        PBT_CHECK(c, got == want, front ? "deque-drain-front" : "deque-drain-back", "drain returned %p, expected %p with %zu left", got, want, m.size());
    }
    PBT_CHECK(c, PDC_deque_pop_front(&d) == nullptr && PDC_deque_pop_back(&d) == nullptr, "deque-empty", "pop of an empty deque is not NULL");
    // an emptied deque is still usable
    size_t n = c.below(40);
    for (size_t i = 0; i < n; i++) PDC_deque_push_back(&d, val(i));
    for (size_t i = 0; i < n; i++) {
        void *g = PDC_deque_pop_front(&d);
        PBT_CHECK(c, g == val(i), "deque-reuse", "after draining: element %zu is %p", i, g);
    }
    PDC_deque_free(&d);
    c.label(maxsz > 64 ? "deque>64" : maxsz > 16 ? "deque>16" : "deque<=16");
    if (maxsz > 16 && wraps) c.nontrivial();
}

static void
run_stack(Case &c)
{
    PDC_stack_t         s;
    std::vector<void *> m;
    uint64_t            next = 0;
    size_t              maxsz = 0;
    memset(&s, 0xA7, sizeof s);
    PDC_stack_init(&s);
    c.note("stack:");
    c.list(1, 10, 40, [&](size_t) {
        bool   push = c.weighted({2, 1}) == 0;
        size_t n    = len(c);
        c.note(" %s*%zu", push ? "push" : "pop", n);
        for (size_t i = 0; i < n; i++) {
            if (push) { PDC_stack_push(&s, val(next)); m.push_back(val(next)); next++; }
            else if (!m.empty()) { // popping an empty stack is outside the contract
                void *g = PDC_stack_pop(&s);
                PBT_CHECK(c, g == m.back(), "stack-pop", "pop returned %p, expected %p", g, m.back());
                m.pop_back();
            }
            PBT_CHECK(c, s.size == m.size(), "stack-size", "size %zu, expected %zu", s.size, m.size());
            maxsz = std::max(maxsz, m.size());
        }
    });
    while (!m.empty()) {
        void *g = PDC_stack_pop(&s);
        PBT_CHECK(c, g == m.back(), "stack-drain", "pop returned %p, expected %p", g, m.back());
        m.pop_back();
    }
    PDC_stack_free(&s);
    c.label(maxsz > 16 ? "stack>16" : "stack<=16");
    if (maxsz > 16) c.nontrivial();
}

static void
run_vector(Case &c)
{
    static const double factors[] = {2.0, 1.5, 1.1, 1.0, 3.0, 0.5, 1.01};
    PDC_VECTOR *v;
    double      factor;
    if (c.chance(1, 4)) {
        v      = pdc_vector_new();
        factor = pdc_vector_get_expansion_factor(v);
        c.note("vector_new:");
    }
    else {
        size_t cap = c.weighted({1, 2, 2}) == 0 ? 100 : c.below(8);
        factor     = factors[c.below(7)];
        v          = pdc_vector_create(cap, factor);
        c.note("vector(cap=%zu,factor=%g):", cap, factor);
    }
    std::vector<void *> m;
    auto check_all = [&]() {
        PBT_CHECK(c, pdc_vector_size(v) == m.size(), "vector-size", "size %zu, expected %zu", pdc_vector_size(v), m.size());
        for (size_t i = 0; i < m.size(); i++) {
            void *g = pdc_vector_get(v, i);
            PBT_CHECK(c, g == m[i], "vector-get", "item %zu is %p, expected %p", i, g, m[i]);
        }
        PBT_CHECK(c, pdc_vector_get(v, m.size()) == nullptr, "vector-range", "get past the end is not NULL");
        PDC_VECTOR_ITERATOR *it = pdc_vector_iterator_new(v);
        size_t i = 0;
        while (pdc_vector_iterator_has_next(it)) {
            void *g = pdc_vector_iterator_next(it);
            PBT_CHECK(c, i < m.size() && g == m[i], "vector-iter", "iterator item %zu is %p", i, g);
            i++;
        }
        PBT_CHECK(c, i == m.size(), "vector-iter-count", "iterator produced %zu of %zu items", i, m.size());
        for (int again = 0; again < 3; again++) {
            PBT_CHECK(c, pdc_vector_iterator_next(it) == nullptr, "vector-iter-end", "next at the end is not NULL");
            PBT_CHECK(c, !pdc_vector_iterator_has_next(it), "vector-iter-after-end", "asked for an item past the end, the iterator has more");
        }
        pdc_vector_iterator_destroy(it);
    };
    size_t before = v->capacity;
    c.list(1, 8, 30, [&](size_t) {
        switch (c.weighted({6, 2, 2, 1})) {
            case 0: {
                size_t n = len(c);
                c.note(" add*%zu", n);
                for (size_t i = 0; i < n; i++) {
                    void *p = malloc(8);
                    pdc_vector_add(v, p);
                    m.push_back(p);
                }
                break;
            }
            case 1: check_all(); c.note(" check"); break;
            case 2:
                factor = factors[c.below(7)];
                c.note(" factor=%g", factor);
                pdc_vector_set_expansion_factor(v, factor);
                PBT_CHECK(c, pdc_vector_get_expansion_factor(v) == factor, "vector-factor", "expansion factor not kept");
                break;
            default: pdc_vector_add(v, nullptr); // documented no-op
        }
    });
    check_all();
    c.label("vector");
    if (m.size() > before) c.nontrivial();
    pdc_vector_destroy(v);
}

struct node {
    int v;
    PDC_LIST_ENTRY(node) entry;
};
static void
run_list(Case &c)
{
    PDC_LIST_HEAD(node) head;
    PDC_LIST_INIT(&head);
    std::vector<node *> m; // front is head
    int                 next = 1;
    c.note("list:");
    auto check = [&]() {
        node * p;
        size_t i = 0;
        PDC_LIST_FOREACH(p, &head, entry)
        {
            PBT_CHECK(c, i < m.size() && p == m[i], "list-order", "element %zu differs", i);
            i++;
        }
        PBT_CHECK(c, i == m.size(), "list-length", "%zu elements, expected %zu", i, m.size());
        PBT_CHECK(c, PDC_LIST_IS_EMPTY(&head) == m.empty(), "list-empty", "emptiness differs");
    };
    c.list(1, 15, 80, [&](size_t) {
        switch (c.weighted({5, 3, 3})) {
            case 0: {
                node *n = (node *)malloc(sizeof(node));
                n->v    = next++;
                PDC_LIST_INSERT_HEAD(&head, n, entry);
                m.insert(m.begin(), n);
                c.note(" +%d", n->v);
                break;
            }
            case 1:
                if (!m.empty()) {
                    size_t i = c.below(m.size());
                    node * n = m[i];
                    c.note(" -%d", n->v);
                    PDC_LIST_REMOVE(n, entry);
                    free(n);
                    m.erase(m.begin() + i);
                }
                break;
            default: {
                int   want = c.below(next + 2);
                node *p;
                c.note(" ?%d", want);
                PDC_LIST_SEARCH(p, &head, entry, v, want);
                node *e = nullptr;
                for (auto x : m)
                    if (x->v == want) e = x;
                PBT_CHECK(c, p == e, "list-search", "search for %d: %s", want, e ? "missing" : "phantom");
            }
        }
        check();
    });
    c.label("list");
    if (m.size() > 2) c.nontrivial();
    while (!m.empty()) {
        node *n = PDC_LIST_FIRST(&head);
        PDC_LIST_REMOVE(n, entry);
        free(n);
        m.erase(m.begin());
    }
    check();
}

static void
run(Case &c)
{
    switch (c.weighted({5, 2, 2, 2})) {
        case 0: run_deque(c); break;
        case 1: run_stack(c); break;
        case 2: run_vector(c); break;
        default: run_list(c);
    }
}

int
main(int argc, char **argv)
{
    pbt::Property p{"C24",
                    "operation histories (runs of 1..300 pushes/pops/adds/removes/searches) on a deque, stack, "
                    "vector or intrusive list compared with std::deque/std::vector after every operation; "
                    "non-trivial: a deque that grew past its initial ring while also pushed at the front, a "
                    "stack or vector that grew, a list longer than 2",
                    800000, 12000000, 400, 5, run};
    return pbt::run_main(argc, argv, p);
}
