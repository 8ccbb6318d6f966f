// C35: checkpoints, and servers that end without being closed.
#include "meta_case.hpp"
#include "region_case.hpp"
#include <sys/stat.h>
using namespace mc;

// which version of its checkpoint file each server has
struct Stamp {
    uint64_t ino = 0;
    int64_t  sec = 0, ns = 0, size = -1;
    bool operator!=(const Stamp &o) const { return ino != o.ino || sec != o.sec || ns != o.ns || size != o.size; }
};
static std::vector<Stamp> stamps(int ns)
{
    std::vector<Stamp> r(ns);
    for (int i = 0; i < ns; i++) {
        struct stat s;
        std::string f = sim::dir() + "/tmp/" + std::to_string(i) + "/metadata_checkpoint." + std::to_string(i);
        if (stat(f.c_str(), &s) == 0) r[i] = {s.st_ino, s.st_mtim.tv_sec, s.st_mtim.tv_nsec, s.st_size};
    }
    return r;
}
// the last completed checkpoint of each server, by the number of the state it holds
struct Base {
    std::vector<Stamp> st;
    std::vector<int>   at;
    int                nserver;
    uint64_t           cost = 0; // storage work of the last requested checkpoint of all servers
    explicit Base(int ns) : st(ns), at(ns, -1), nserver(ns) {}
    void look(int k) // every new file holds state k
    {
        auto now = stamps(nserver);
        for (int i = 0; i < nserver; i++) if (now[i] != st[i]) { st[i] = now[i]; at[i] = k; }
    }
    bool stale() { auto now = stamps(nserver); for (int i = 0; i < nserver; i++) if (now[i] != st[i]) return true; return false; }
    bool mixed() const { for (int a : at) if (a != at[0]) return true; return false; }
};
static void request(Runner &R)
{
    PBT_CHECK(R.c, SIM(R.p, PDC_Client_all_server_checkpoint)() >= 0, "checkpoint-request", "client %d: requesting a checkpoint failed", R.cl);
}
static void end_of_run(Case &c)
{
    for (auto &e : sim::protocol_errors()) c.fail("protocol", "%s", e.c_str());
}
static void environment(Case &c, int ns)
{
    unsetenv("PDC_CHECKPOINT_TMPFS");
    if (c.chance(1, 4)) { setenv("PDC_CHECKPOINT_TMPFS", "1", 1); c.note("checkpoints go through the node's /tmp\n"); }
    std::vector<double> r;
    for (int i = 0; i < ns; i++) r.push_back(c.pick({400.0, 230.0, 1.0}));
    c.note("processor time per second of each server:");
    for (double x : r) c.note(" %g", x);
    c.note("\n");
    sim::cpu_rates(r);
}

struct Crash : World {
    Base                          base;
    std::vector<std::vector<Ent>> snaps; // by number of the state
    Crash(Case &c_, int ns_) : World(c_, RESTART), base(ns_) {}

    int snapshot() { snaps.push_back(ents); return (int)snaps.size() - 1; }
    void sleep_all(double s) { ops[0].push_back([s](Runner &) { sim::advance(s); }); }
    // every server checkpoints because a client asks for it; nothing else goes on
    void checkpoint()
    {
        int k = snapshot();
        barrier();
        int cl = 0;
        c.note(" checkpoint of state %d\n", k);
        ops[cl].push_back([this, k](Runner &R) {
            uint64_t was = sim::storage_work();
            request(R);
            sim::advance(1);
            base.cost = sim::storage_work() - was;
            base.look(k);
            for (int i = 0; i < ns; i++)
                PBT_CHECK(R.c, base.at[i] == k, "no-checkpoint", "server %d did not write its checkpoint", i);
        });
        barrier();
    }
    void full()
    {
        int k = snapshot();
        barrier();
        uint64_t part = c.below(1000);
        c.note(" a checkpoint of state %d that finds no space after %d/1000 of the work\n", k, (int)part);
        c.label("no space");
        ops[0].push_back([this, k, part](Runner &R) {
            sim::no_space_after(base.cost * part / 1000);
            request(R);
            sim::advance(1);
            sim::storage_ok();
            base.look(k);
        });
        barrier();
    }
    void idle()
    {
        int k = snapshot();
        barrier();
        double s = c.pick({5.0, 9.0, 20.0});
        bool full = base.at[0] >= 0 && c.chance(1, 4);
        uint64_t part = full ? c.below(1000) : 0;
        c.note(" state %d: nothing happens for %g s\n", k, s);
        if (full) c.note(" and there is no space after %d/1000 of the work of a checkpoint\n", (int)part);
        c.label("idle");
        ops[0].push_back([this, k, s, full, part](Runner &R) {
            sim::busy(4);
            if (full) sim::no_space_after(base.cost * part / 1000);
            sim::advance(s);
            sim::storage_ok();
            sim::busy(0);
            auto was = base.at;
            base.look(k);
            if (was != base.at) R.c.label("checkpoint by itself");
        });
        barrier();
    }
    void anytime() // while other clients work
    {
        auto &o = ops[0];
        size_t at = o.size() - c.below(std::min<size_t>(o.size(), 8));
        c.note(" client 0 asks for a checkpoint before its operation %zu\n", at);
        o.insert(o.begin() + at, [](Runner &R) { request(R); });
    }
    void lose()
    {
        c.note(" everything stops\n");
        for (int k = 0; k < nc; k++) ops[k].push_back([](Runner &R) { if (R.cl == 0) sim::lose(); else sim::advance(1e6); });
    }
    void lose_in_work(const std::vector<size_t> &from)
    {
        int    cl = (int)c.below(nc);
        size_t n  = ops[cl].size() - from[cl], at = from[cl] + c.below(n + 1);
        c.note(" everything stops before operation %zu of client %d\n", at, cl);
        ops[cl].insert(ops[cl].begin() + at, [](Runner &) { sim::lose(); });
        lose();
    }
    void lose_in_checkpoint()
    {
        int k = snapshot();
        barrier();
        uint64_t part = c.below(1001);
        c.note(" everything stops after %d/1000 of the work of a checkpoint of state %d\n", (int)part, k);
        c.label("stopped in checkpoint");
        ops[0].push_back([this, part](Runner &R) {
            sim::crash_after(base.cost * part / 1000);
            request(R);
            sim::advance(1);
            sim::lose();
        });
        for (int q = 1; q < nc; q++) ops[q].push_back([](Runner &) { sim::advance(1e6); });
        lost_at = k;
    }
    int lost_at = -1;
    // the world as the last completed checkpoints have it
    void revert()
    {
        size_t n = 0;
        for (int k : base.at) n = std::max(n, snaps[k].size());
        bool mix = base.mixed();
        std::vector<Ent> r;
        for (size_t e = 0; e < n; e++) {
            uint64_t id = S.meta[e];
            int      s  = id ? (int)(id / 1000000000ull) - 1 : 0;
            PBT_CHECK(c, s >= 0 && s < ns, "bad-id", "entity #%zu has the id %" PRIu64, e, id);
            auto &sn = snaps[base.at[s]];
            if (e < sn.size()) r.push_back(sn[e]);
            else { r.push_back(ents[e]); r.back().alive = false; }
            r.back().data.clear(); // the contents are not part of a checkpoint
            r.back().mask.clear();
        }
        ents = r;
        if (!mix) S.meta.resize(n);
        S.coll.clear();
    }
};

static void run_meta(Case &c)
{
    int   ns = 1 + (int)c.below(3), gens = 2 + (int)c.below(4);
    Crash W(c, ns);
    W.gen_names();
    environment(c, ns);
    bool lost = false;
    for (int g = 0; g < gens; g++) {
        c.note("generation %d\n", g);
        W.start(ns, 1 + (int)c.weighted({2, 3, 2}));
        bool mix = g && lost && W.base.mixed();
        W.lost_at = -1;
        if (g) W.verify_phase();
        if (mix) c.label("different states");
        if (!mix) {
            W.col_create_cont("cont", false);
            W.owner["cont"] = -1;
        }
        W.barrier();
        int  ph = mix ? 0 : 1 + (int)c.below(3), any = 0;
        for (int f = 0; f < ph; f++) {
            c.note("phase %d\n", f);
            if (c.chance(1, 30)) W.many_phase();
            W.change_phase(8);
            if (c.chance(1, 6)) { W.anytime(); any = 1; W.checkpoint(); }
            else if (c.chance(1, 2)) W.checkpoint();
            else if (W.base.at[0] >= 0 && c.chance(1, 4)) W.full();
            if (c.chance(1, 8)) W.idle();
            if (c.chance(1, 3)) W.query_phase(3);
        }
        (void)any;
        bool close = mix || g == gens - 1 || c.chance(1, 8);
        lost       = !close;
        if (!close) {
            if (g == 0 || c.flip()) W.checkpoint();
            if (c.chance(1, 5)) W.idle();
            size_t how = c.weighted({2, 3, 4});
            if (how == 1) {
                std::vector<size_t> from;
                for (auto &o : W.ops) from.push_back(o.size());
                c.note("work that is lost\n");
                W.change_phase(8);
                W.lose_in_work(from);
            }
            else if (how == 2) {
                if (c.flip()) { c.note("work before\n"); W.change_phase(6); }
                W.lose_in_checkpoint();
            }
            else W.lose();
        }
        sim::servers(ns, g > 0);
        sim::clients(W.nc, [&](sim::Proc &p) { W.body(p); });
        sim::storage_ok();
        if (close) {
            sim::await_servers_end();
            int k = W.snapshot();
            W.base.look(k);
        }
        end_of_run(c);
        if (!close) {
            sim::kill_servers();
            if (W.lost_at >= 0) W.base.look(W.lost_at);
            else if (W.base.stale()) { c.label("checkpoint at an unknown moment"); c.discard(); }
            c.note("states held:");
            for (int a : W.base.at) c.note(" %d", a);
            c.note("\n");
            W.revert();
        }
        if (mix) break; // what the servers hold does not fit together: only look
    }
    if (W.nmut > 1) c.nontrivial();
    sim::end();
}
// Contents of regions: what was flushed before a completed checkpoint is there after everything stopped.
static void run_data(Case &c)
{
    c.label("region data");
    int      ns = 1 + (int)c.below(3), gens = 2 + (int)c.below(3);
    rg::Plan all;
    Base     base(ns);
    environment(c, ns);
    for (int g = 0; g < gens; g++) {
        rg::Plan P;
        P.objs      = all.objs;
        P.checkpoints = true;
        size_t from = P.objs.size();
        c.note("generation %d\n", g);
        rg::gen_plan(c, P, ns, 1 + (int)c.weighted({3, 2}), g ? 1 : 3, 2, 4);
        all.nwrites += P.nwrites;
        std::vector<rg::Obj> was = all.objs, held = P.objs;
        std::vector<size_t>  ops1, req1;
        for (auto &k : P.clients) { ops1.push_back(k.ops.size()); req1.push_back(k.reqs.size()); }
        bool close = g == gens - 1 || c.chance(1, 8), twice = c.chance(1, 3), more = !close && c.flip(), in_work = more && c.flip(), in_ck = !close && !in_work && c.flip();
        std::vector<int> flush; // the objects whose data is flushed; all of them when empty
        if (c.flip()) {
            for (size_t i = 0; i < P.objs.size(); i++) {
                if (c.chance(3, 4)) { flush.push_back((int)i); c.note("object %zu is flushed\n", i); }
                else std::fill(held[i].mask.begin(), held[i].mask.end(), 0);
            }
        }
        else c.note("everything is flushed\n");
        bool flush_all = flush.empty();
        if (twice) c.note("a second checkpoint\n");
        if (more) { // work after the checkpoint
            P.fixed_dims = true;
            c.note("after the checkpoint\n");
            auto acc = rg::gen_access(c, P);
            for (int k = 0; k < P.nclient; k++) {
                std::vector<rg::Out> out;
                rg::gen_phase(c, P, k, acc[k], out, 4, true);
                for (size_t q = req1[k]; q < P.clients[k].reqs.size(); q++) {
                    auto &r = P.clients[k].reqs[q];
                    if (r.write) for (uint64_t e : rg::elems(r.remote, P.objs[r.obj].dims, P.objs[r.obj].ndim)) held[r.obj].mask[e] = 0;
                }
            }
        }
        int    stop_cl = -1;
        size_t stop_op = 0;
        if (in_work) {
            stop_cl = (int)c.below(P.nclient);
            stop_op = c.below(P.clients[stop_cl].ops.size() - ops1[stop_cl] + 1);
            c.note("everything stops after %zu of the operations of client %d\n", stop_op, stop_cl);
            c.label("stopped in work");
        }
        bool last_ck = more && !in_work && !in_ck && c.chance(3, 4); // the flush thread may be busy at that time
        if (last_ck) { c.note("client 0 asks for another checkpoint\n"); c.label("checkpoint after work"); }
        uint64_t part = c.below(1001);
        if (in_ck) { c.note("everything stops after %d/1000 of the work of another checkpoint\n", (int)part); c.label("stopped in checkpoint"); }
        if (!close && !in_ck && !in_work) c.note("everything stops\n");
        bool check = g && c.flip();
        sim::servers(ns, g > 0);
        sim::clients(P.nclient, [&](sim::Proc &p) {
            rg::Runner r(p, c, P);
            r.init();
            r.create(from);
            if (check) { if (r.cl == P.nclient - 1) r.verify(was); r.barrier(); }
            auto todo = P.clients[r.cl].ops;
            std::vector<rg::Op> later(todo.begin() + ops1[r.cl], todo.end());
            P.clients[r.cl].ops.assign(todo.begin(), todo.begin() + ops1[r.cl]);
            r.run();
            r.barrier();
            if (r.cl == 0 && close && g == gens - 1) r.verify(P.objs);
            if (r.cl == 0) {
                if (flush_all) SIM(p, PDCobj_flush_all_start)();
                else for (int o : flush) SIM(p, PDCobj_flush_start)(r.obj[o]);
                sim::advance(1);
                for (int i = 0; i <= twice; i++) {
                    uint64_t work = sim::storage_work();
                    PBT_CHECK(c, SIM(p, PDC_Client_all_server_checkpoint)() >= 0, "checkpoint-request", "requesting a checkpoint failed");
                    sim::advance(1);
                    base.cost = sim::storage_work() - work;
                }
                base.look(g);
                for (int i = 0; i < ns; i++) PBT_CHECK(c, base.at[i] == g, "no-checkpoint", "server %d did not write its checkpoint", i);
            }
            r.barrier();
            P.clients[r.cl].ops = later;
            if (stop_cl == r.cl) {
                P.clients[r.cl].ops.resize(stop_op);
                r.run();
                sim::lose();
            }
            r.run();
            if (!close) {
                if (last_ck && !r.cl) PBT_CHECK(c, SIM(p, PDC_Client_all_server_checkpoint)() >= 0, "checkpoint-request", "requesting a checkpoint failed");
                r.barrier();
                if (r.cl) sim::advance(1e6);
                if (last_ck) sim::advance(1);
                if (in_ck) {
                    sim::crash_after(base.cost * part / 1000);
                    SIM(p, PDC_Client_all_server_checkpoint)();
                    sim::advance(1);
                }
                sim::lose();
            }
            r.close();
        });
        sim::storage_ok();
        if (close) sim::await_servers_end();
        end_of_run(c);
        if (!close) sim::kill_servers();
        all.objs = close ? P.objs : held;
    }
    if (all.nwrites) c.nontrivial();
    sim::end();
}
// Checkpoints while writes flow in and the servers' caches are emptied all the time: the servers start again from any of them, and have all
// that was flushed before the last one.
static void run_flow(Case &c)
{
    c.label("flow");
    int      ns = 1 + (int)c.weighted({4, 1});
    rg::Plan P;
    Base     base(ns);
    environment(c, ns);
    P.nserver = ns; P.nclient = 1 + (int)c.below(2); P.storm = true;
    c.note("a flow of writes, %d server(s), %d client(s)\n", ns, P.nclient);
    rg::gen_env(c, P);
    setenv("PDC_SERVER_CACHE_FLUSH_FREQUENCY_S", "0", 1);
    rg::gen_objects(c, P, 4);
    P.clients.resize(P.nclient);
    auto acc = rg::gen_access(c, P);
    int  rounds = 2 + (int)c.below(3);
    bool each = c.flip(); // waits for every request by itself
    for (int k = 0; k < P.nclient; k++) {
        auto &C = P.clients[k];
        for (int r = 0; r < rounds; r++) {
            for (size_t i = 0; i < P.objs.size(); i++) {
                auto &a = acc[k][i];
                uint64_t n = a.hi - a.lo;
                if (a.mode < 2 || !n) continue;
                uint64_t todo = 1 + c.below(5);
                std::vector<int> batch;
                for (uint64_t q = 0; q < todo && q < n; q++) rg::gen_row(c, P, k, (int)i, a.lo + (r * todo + q) % n, batch);
                if (each) for (int b : batch) { C.ops.push_back({rg::START, {b}}); C.ops.push_back({rg::WAIT, {b}}); }
                else { C.ops.push_back({rg::STARTALL, batch}); C.ops.push_back({rg::WAITALL, batch}); }
            }
            if (!k || c.flip()) { C.ops.push_back({rg::CHECKPOINT}); c.note(" client %d asks for a checkpoint\n", k); }
        }
    }
    bool flush = c.flip(), wait = flush || c.flip();
    if (flush) c.note("everything is flushed\n");
    if (!wait) c.note("everything stops at once\n");
    sim::servers(ns, false);
    sim::clients(P.nclient, [&](sim::Proc &p) {
        rg::Runner r(p, c, P);
        r.init();
        r.create();
        r.barrier();
        r.run();
        if (wait) r.barrier();
        if (r.cl && wait) sim::advance(1e6);
        if (flush) {
            SIM(p, PDCobj_flush_all_start)();
            sim::advance(1);
            PBT_CHECK(c, SIM(p, PDC_Client_all_server_checkpoint)() >= 0, "checkpoint-request", "requesting a checkpoint failed");
        }
        if (wait) sim::advance(1);
        sim::lose();
    });
    end_of_run(c);
    sim::kill_servers();
    base.look(0);
    if (*std::min_element(base.at.begin(), base.at.end()) < 0) { c.label("no checkpoint of all servers"); c.discard(); }
    if (!flush) for (auto &o : P.objs) std::fill(o.mask.begin(), o.mask.end(), 0);
    rg::Plan Q = P;
    for (auto &k : Q.clients) k = {};
    sim::servers(ns, true);
    sim::clients(Q.nclient, [&](sim::Proc &p) {
        rg::Runner r(p, c, Q);
        r.init();
        r.create(Q.objs.size());
        r.barrier();
        r.verify();
        r.barrier();
        r.close();
    });
    sim::await_servers_end();
    end_of_run(c);
    c.nontrivial();
    sim::end();
}
int main(int argc, char **argv)
{
    sim::preload(16, 16);
    static auto run = [](Case &c) {
        sim::begin(c);
        sim::connections(c);
        switch (c.weighted({9, 9, 2})) {
        case 0: run_data(c); break;
        case 1: run_meta(c); break;
        default: run_flow(c);
        }
    };
    pbt::Property p{"C35", "each case runs several generations of servers with a generated metadata history each; most generations end without being closed, in the middle of work "
                    "or of a checkpoint; non-trivial: the history changes something", 3600, 120000, 1, 60, run};
    p.assumptions = {"Mercury, MPI, threads, clocks and the writing of checkpoint files are deterministic stand-ins"};
    return pbt::run_main(argc, argv, p);
}
