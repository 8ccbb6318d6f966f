// C30: a stopwatch measures exactly the time it was running.
#include "pbt.hpp"
#include <sys/time.h>
#include <cmath>
extern "C" {
#include "timer_utils.h"
static int64_t now_us;
int __wrap_gettimeofday(struct timeval *t, void *) { t->tv_sec = now_us / 1000000; t->tv_usec = now_us % 1000000; return 0; }
}
using pbt::Case;
static bool near(double a, double b) { return std::fabs(a - b) <= 1e-9 * std::max(std::fabs(a), std::fabs(b)); }
static void
run(Case &c)
{
    now_us = (int64_t)c.bits(c.flip() ? 51 : 33);
    struct M { int st = 0; int64_t acc = 0, since = 0; } m[2]; // 0 never, 1 running, 2 paused
    stopwatch_t *w[2] = {(stopwatch_t *)malloc(sizeof(stopwatch_t)), (stopwatch_t *)malloc(sizeof(stopwatch_t))};
    int pauses = 0;
    for (int i = 0; i < 2; i++) { timer_start(w[i]); m[i].st = 1; m[i].since = now_us; }
    c.list(1, 12, 60, [&](size_t) {
        int64_t dt = (int64_t)c.bits((int)c.below(41));
        now_us += dt;
        int i = (int)c.below(2), op = (int)c.weighted({1, 4, 4, 3});
        auto el = [&] { return m[i].acc + (m[i].st == 1 ? now_us - m[i].since : 0); };
        static const char *N[] = {"start", "pause", "unpause", "look"};
        c.note("+%lld us: %s %d\n", (long long)dt, N[op], i);
        switch (op) {
            case 0: timer_start(w[i]); m[i].st = 1; m[i].acc = 0; m[i].since = now_us; break;
            case 1: timer_pause(w[i]); if (m[i].st == 1) { m[i].acc = el(); m[i].st = 2; pauses++; } break;
            case 2: timer_unpause(w[i]); if (m[i].st == 2) { m[i].st = 1; m[i].since = now_us; } break;
        }
        for (i = 0; i < 2; i++) {
            double e = (double)el();
            PBT_CHECK(c, timer_delta_us(w[i]) == e, "us", "stopwatch %d shows %f us, ran for %f", i, timer_delta_us(w[i]), e);
            PBT_CHECK(c, near(timer_delta_ms(w[i]), e / 1e3), "ms", "stopwatch %d shows %f ms, ran for %f us", i, timer_delta_ms(w[i]), e);
            PBT_CHECK(c, near(timer_delta_s(w[i]), e / 1e6), "s", "stopwatch %d shows %f s, ran for %f us", i, timer_delta_s(w[i]), e);
            PBT_CHECK(c, near(timer_delta_m(w[i]), e / 6e7), "min", "stopwatch %d shows %f min, ran for %f us", i, timer_delta_m(w[i]), e);
            PBT_CHECK(c, near(timer_delta_h(w[i]), e / 3.6e9), "h", "stopwatch %d shows %f h, ran for %f us", i, timer_delta_h(w[i]), e);
        }
        PBT_CHECK(c, timer_us_timestamp() == now_us && timer_ms_timestamp() == now_us / 1000 && timer_s_timestamp() == now_us / 1000000,
                  "timestamp", "timestamps at %lld us are %lld us, %lld ms, %lld s", (long long)now_us, (long long)timer_us_timestamp(),
                  (long long)timer_ms_timestamp(), (long long)timer_s_timestamp());
    });
    if (pauses > 1) c.nontrivial();
    free(w[0]); free(w[1]);
}
int
main(int argc, char **argv)
{
    pbt::Property p{"C30", "each case drives two stopwatches through a generated history of starts, pauses and resumptions on a generated clock; non-trivial: at least two effective pauses", 20000, 2000000, 500, 20, run};
    return pbt::run_main(argc, argv, p);
}
