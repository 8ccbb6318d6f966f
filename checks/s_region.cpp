// Region transfers against an array model: C01 one client, C02 several clients.
#include "region_case.hpp"
using namespace rg;
#ifndef MULTI
#define MULTI 0
#endif
static void run(Case &c)
{
    sim::begin(c);
    sim::connections(c);
    Plan P;
    int ns = 1 + (int)c.below(3), nc = MULTI ? 2 + (int)c.below(3) : 1;
    P.resize_static = !MULTI;
    gen_plan(c, P, ns, nc, 3, MULTI ? 4 : 3, MULTI ? 5 : 10);
    if (P.nwrites && P.nreads) c.nontrivial();
    if (P.overlaps) c.label("overwrites");
    sim::servers(ns);
    sim::clients(nc, [&](sim::Proc &p) {
        Runner r(p, c, P);
        r.init();
        r.create();
        r.run();
        r.barrier();
        if (r.cl == 0) r.verify();
        r.close();
    });
    sim::await_servers_end();
    for (auto &e : sim::protocol_errors()) c.fail("protocol", "%s", e.c_str());
    sim::end();
}
int main(int argc, char **argv)
{
    sim::preload(3, MULTI ? 4 : 1);
    pbt::Property p{MULTI ? "C02" : "C01", "each case starts 1-3 servers and 1-4 clients and runs a generated history of region transfers over 1-3 objects; "
        "non-trivial: at least one write and one read request in the history", MULTI ? 3500u : 4500u, MULTI ? 60000u : 80000u, 1, 60, run};
    p.assumptions = {"Mercury, MPI, threads and clocks are deterministic stand-ins"};
    return pbt::run_main(argc, argv, p);
}
