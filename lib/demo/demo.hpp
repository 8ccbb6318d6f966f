// Small helpers for demonstrations that run PDC's client and server in the simulated installation.
#pragma once
#include "sim.hpp"
#include "pdc_api.hpp"
#include "mpi.h"
#include <cinttypes>
#include <set>
using pbt::Case;
using sim::Proc;
#define NEED(cond, ...) PBT_CHECK(c, cond, "demo", __VA_ARGS__)

struct Client {
    Proc &p; Case &c;
    int rank;
    pdcid_t pdc, contp = 0, cont = 0;
    Client(Proc &p_, Case &c_) : p(p_), c(c_), rank(sim::rank(p_)) { pdc = SIM(p, PDCinit)("pdc"); NEED(pdc, "PDCinit"); }
    void barrier() { MPI_Barrier(MPI_COMM_WORLD); }
    void container(const char *name = "cont") { contp = SIM(p, PDCprop_create)(PDC_CONT_CREATE, pdc); cont = SIM(p, PDCcont_create_col)(name, contp); NEED(cont, "container"); }
    pdcid_t create(const char *name, std::vector<uint64_t> dims = {16}, int type = PDC_INT, pdc_region_partition_t part = PDC_OBJ_STATIC,
                   pdc_consistency_t cons = PDC_CONSISTENCY_EVENTUAL, int step = 0, const char *app = "app", int user = 1000, const char *tags = nullptr)
    {
        pdcid_t pr = SIM(p, PDCprop_create)(PDC_OBJ_CREATE, pdc);
        SIM(p, PDCprop_set_obj_dims)(pr, (int)dims.size(), dims.data());
        SIM(p, PDCprop_set_obj_type)(pr, (pdc_var_type_t)type);
        SIM(p, PDCprop_set_obj_user_id)(pr, user);
        SIM(p, PDCprop_set_obj_time_step)(pr, step);
        SIM(p, PDCprop_set_obj_app_name)(pr, (char *)app);
        if (tags) SIM(p, PDCprop_set_obj_tags)(pr, (char *)tags);
        SIM(p, PDCprop_set_obj_transfer_region_type)(pr, part);
        SIM(p, PDCprop_set_obj_consistency_semantics)(pr, cons);
        pdcid_t o = SIM(p, PDCobj_create)(cont, name, pr);
        SIM(p, PDCprop_close)(pr);
        return o;
    }
    pdcid_t open(const char *name) { return SIM(p, PDCobj_open)(name, pdc); }
    // a transfer of one box, the buffer holding exactly the box
    pdcid_t request(pdcid_t o, bool write, void *buf, std::vector<uint64_t> off, std::vector<uint64_t> cnt, uint64_t unit = 4)
    {
        uint64_t n = 1, z = 0;
        for (auto x : cnt) n *= x;
        (void)unit;
        pdcid_t l = SIM(p, PDCregion_create)(1, &z, &n), r = SIM(p, PDCregion_create)((int)off.size(), off.data(), cnt.data());
        pdcid_t t = SIM(p, PDCregion_transfer_create)(buf, write ? PDC_WRITE : PDC_READ, o, l, r);
        NEED(t, "transfer request");
        SIM(p, PDCregion_close)(l); SIM(p, PDCregion_close)(r);
        return t;
    }
    void start(pdcid_t t) { NEED(SIM(p, PDCregion_transfer_start)(t) >= 0, "start"); }
    void wait(pdcid_t t) { NEED(SIM(p, PDCregion_transfer_wait)(t) >= 0, "wait"); SIM(p, PDCregion_transfer_close)(t); }
    void put(pdcid_t o, std::vector<uint64_t> off, std::vector<uint64_t> cnt, int first)
    {
        uint64_t n = 1;
        for (auto x : cnt) n *= x;
        std::vector<int> b(n);
        for (uint64_t i = 0; i < n; i++) b[i] = first + (int)i;
        pdcid_t t = request(o, true, b.data(), off, cnt);
        start(t); wait(t);
    }
    std::vector<int> get(pdcid_t o, std::vector<uint64_t> off, std::vector<uint64_t> cnt)
    {
        uint64_t n = 1;
        for (auto x : cnt) n *= x;
        std::vector<int> b(n, -7);
        pdcid_t t = request(o, false, b.data(), off, cnt);
        start(t); wait(t);
        return b;
    }
    void expect(pdcid_t o, std::vector<uint64_t> off, std::vector<uint64_t> cnt, std::vector<int> v)
    {
        auto g = get(o, off, cnt);
        for (size_t i = 0; i < v.size(); i++) NEED(g[i] == v[i], "element %zu of the region is %d, not %d", i, g[i], v[i]);
    }
    void stop()
    {
        barrier();
        SIM(p, PDC_Client_close_all_server)();
        SIM(p, PDCclose)(pdc);
    }
};
// one life of an installation
template <class F> void installation(Case &c, int ns, int nc, F body, bool again = false)
{
    sim::servers(ns, again);
    sim::clients(nc, [&](Proc &p) { Client k(p, c); body(k); k.stop(); });
    sim::await_servers_end();
}
#define DEMO(NS, NC, N) \
    static void scenario(Case &c); \
    static void demo_run(Case &c) { c.nontrivial(); sim::begin(c); scenario(c); sim::end(); } \
    int main(int argc, char **argv) { sim::preload(NS, NC); pbt::Property p{"DEMO", "demo", N, N, 1, 60, demo_run}; return pbt::run_main(argc, argv, p); } \
    static void scenario(Case &c)
