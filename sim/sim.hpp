// Deterministic in-process simulation of a PDC installation: every PDC process (server or client rank) is a private
// copy of the compiled client or server library, run on fibers inside one OS thread.  Mercury, MPI, threads and time
// are stand-ins; which fiber runs and which message or bulk transfer is delivered next is decided by one seed.
#pragma once
#include "pbt.hpp"
#include <cstdlib>
#include <functional>
#include <string>
#include <vector>

namespace sim {

// ---- once, in main(), before pbt::run_main ---------------------------------------------------------------------
void preload(int nserver_copies, int nclient_copies);

struct Proc; // a simulated process

// ---- per case --------------------------------------------------------------------------------------------------
// Starts a case: private scratch directory (the current directory; removed by end()), schedule seed drawn from c.
void begin(pbt::Case &c);
void end();

// Starts n servers as one MPI job and runs until they wait for requests.
void servers(int n, bool restart = false);
// Runs body as n client processes of one MPI job until every one has returned.
void clients(int n, const std::function<void(Proc &)> &body);
// Lets the installation run until nothing but timers is left, or for so many virtual seconds.
void settle(double seconds = 0);
// All servers stop at once without running any more of their code.
void kill_servers();
// Runs until every server has ended by itself.
void await_servers_end();
bool servers_alive();
// Called from a client: everything, servers and clients, stops at once.
void lose();
// The processor time the servers use per second that passes, by rank (default 1).
void cpu_rates(const std::vector<double> &);
// Servers stop waiting for requests after so many milliseconds, to try again (0: as they ask for themselves).
void busy(unsigned ms);
// From here on, after n more steps (openings, bytes written, renamings) of writing checkpoint files everything stops, or there is no space left.
void crash_after(uint64_t n);
void no_space_after(uint64_t n);
void storage_ok();
uint64_t storage_work(); // such steps so far

int   rank(Proc &);
void *symbol(Proc &, const char *name);
Proc &current(); // the process the calling fiber belongs to
const std::string &dir();
double now();
void advance(double seconds); // called from a client: sleep
void yield();                 // called from a client: let others run
// The requests a process registered, and their encoding routines as compiled into its library.
Proc &server(int i);
Proc &client(int i);
std::vector<std::string> rpc_names(Proc &);
// op: 0 encode (appends to buf), 1 decode (from the start of buf; used gets the bytes consumed), 2 release what decoding allocated
int   rpc_code(Proc &, const std::string &name, bool out, int op, std::vector<char> &buf, size_t &used, void *data);
void *bulk_of(Proc &, const std::vector<std::pair<void *, size_t>> &segs);
std::vector<std::pair<void *, size_t>> bulk_segs(void *);
// statistics for evidence and triviality rules
struct Stats {
    uint64_t switches, deliveries, rpcs, bulks, reordered;
};
const Stats &stats();
// violations of Mercury's own rules seen while running (answering twice, using a freed bulk handle, ...)
const std::vector<std::string> &protocol_errors();

// Which connections are made at start-up and which server is a client's nearest, through the environment of all processes.
inline void connections(pbt::Case &c)
{
    for (const char *v : {"PDC_LOOKUP_ON_DEMAND", "PDC_CLIENT_LOOKUP", "PDC_NCLIENT_PER_SERVER"}) unsetenv(v);
    if (!c.chance(1, 3)) return;
    if (c.flip()) { setenv("PDC_LOOKUP_ON_DEMAND", "1", 1); c.note("servers look one another up on demand\n"); }
    if (c.flip()) { const char *h = c.flip() ? "ALL" : "NONE"; setenv("PDC_CLIENT_LOOKUP", h, 1); c.note("clients look up servers: %s\n", h); }
    if (c.flip()) { std::string n = std::to_string(1 + c.below(4)); setenv("PDC_NCLIENT_PER_SERVER", n.c_str(), 1); c.note("%s clients per server\n", n.c_str()); }
}

// function of a process's own library:  SIM(p, PDCinit)("pdc")
#define SIM(p, f) (reinterpret_cast<decltype(&::f)>(sim::symbol((p), #f)))
} // namespace sim
