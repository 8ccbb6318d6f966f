// Histories of metadata operations: KIND 0 (C04) life of objects and containers, 1 (C05) tags, 2 (C06) queries, 3 (C08) restarts.
#include "meta_case.hpp"
#include "region_case.hpp"
using namespace mc;
#ifndef KIND
#define KIND 0
#endif
static void end_of_run(Case &c)
{
    sim::await_servers_end();
    for (auto &e : sim::protocol_errors()) c.fail("protocol", "%s", e.c_str());
}
// Generations of servers that keep the data of regions.
static void run_data(Case &c)
{
    c.label("region-data");
    rg::Plan all;
    int gens = 2 + (int)c.weighted({4, 2, 1}), ns = 1 + (int)c.below(3);
    for (int g = 0; g < gens; g++) {
        rg::Plan P;
        P.objs = all.objs;
        P.checkpoints = true;
        size_t from = P.objs.size();
        c.note("generation %d\n", g);
        rg::gen_plan(c, P, ns, 1 + (int)c.weighted({3, 2}), g ? 1 : 3, 2, 4);
        all.nwrites += P.nwrites;
        bool check = g && c.flip();
        std::vector<rg::Obj> was = all.objs;
        sim::servers(ns, g > 0);
        sim::clients(P.nclient, [&](sim::Proc &p) {
            rg::Runner r(p, c, P);
            r.init();
            r.create(from);
            if (check) { if (r.cl == P.nclient - 1) r.verify(was); r.barrier(); }
            r.run();
            r.barrier();
            if (r.cl == 0 && (g == gens - 1)) r.verify(P.objs);
            r.close();
        });
        end_of_run(c);
        all.objs = P.objs;
    }
    if (all.nwrites) c.nontrivial();
    sim::end();
}
static void run(Case &c)
{
    sim::begin(c);
    sim::connections(c);
    if (KIND == RESTART && c.chance(1, 2)) { run_data(c); return; }
    World W(c, KIND);
    W.gen_names();
    int gens = KIND == RESTART ? 2 + (int)c.below(2) : 1;
    int ns = 1 + (int)c.below(3);
    for (int g = 0; g < gens; g++) {
        W.start(ns, 1 + (int)c.weighted({2, 3, 2}));
        if (g) W.verify_phase();
        W.col_create_cont("cont", false);
        W.owner["cont"] = -1;
        W.barrier();
        int ph = 1 + (int)c.below(KIND == RESTART ? 2 : 3);
        for (int f = 0; f < ph; f++) {
            c.note("phase %d\n", f);
            if (c.chance(1, KIND == LIFE ? 12 : 24)) W.many_phase();
            W.change_phase(KIND == QUERY ? 8 : 12);
            if ((KIND == LIFE || KIND == RESTART) && c.chance(1, 8)) W.members_phase();
            if (KIND != RESTART || c.flip()) W.query_phase(KIND == QUERY ? 6 : 3);
        }
        sim::servers(ns, g > 0);
        sim::clients(W.nc, [&](sim::Proc &p) { W.body(p); });
        end_of_run(c);
    }
    if (KIND == QUERY ? W.nquery && W.nmut : KIND == TAGS ? W.nmut > 1 && W.nread : W.nmut > 1) c.nontrivial();
    sim::end();
}
int main(int argc, char **argv)
{
    sim::preload(KIND == 3 ? 12 : 3, KIND == 3 ? 9 : 3);
    static const char *ids[] = {"C04", "C05", "C06", "C08"};
    pbt::Property p{ids[KIND], KIND == RESTART ? "each case runs 2-3 generations of servers with a generated metadata history each, closing them in between; non-trivial: the history changes something"
                    : "each case starts 1-3 servers and clients and runs a generated history of metadata operations; non-trivial: the history both changes and asks",
        KIND == RESTART ? 6000u : 9000u, 200000, 1, 60, run};
    p.assumptions = {"Mercury, MPI, threads and clocks are deterministic stand-ins"};
    return pbt::run_main(argc, argv, p);
}
