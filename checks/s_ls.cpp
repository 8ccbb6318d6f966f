// C34: what pdc_ls shows of the checkpoints a generated history leaves behind, against the model of that history.
#include "meta_case.hpp"
#include "region_case.hpp"
#include <regex.h>
#include <math.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <dirent.h>
#include <sys/wait.h>
using namespace mc;

// ---- a JSON reader of its own ------------------------------------------------------------------------------------
struct J {
    char                                  k = 0; // o a s n
    std::string                           s;
    double                                n = 0;
    std::vector<J>                        a;
    std::vector<std::pair<std::string, J>> o;
    const J *get(const char *f) const { for (auto &x : o) if (x.first == f) return &x.second; return nullptr; }
};
struct JP {
    const char *p, *e;
    bool        bad = false;
    void ws() { while (p < e && isspace((unsigned char)*p)) p++; }
    std::string str()
    {
        std::string r;
        p++;
        while (p < e && *p != '"') {
            if (*p == '\\') {
                p++;
                if (p >= e) break;
                switch (*p) {
                case 'n': r += '\n'; break; case 't': r += '\t'; break; case 'r': r += '\r'; break; case 'b': r += '\b'; break; case 'f': r += '\f'; break;
                case 'u': r += (char)strtol(std::string(p + 1, 4).c_str(), nullptr, 16); p += 4; break;
                default: r += *p;
                }
                p++;
            }
            else r += *p++;
        }
        if (p < e) p++; else bad = true;
        return r;
    }
    J val()
    {
        J j;
        ws();
        if (p >= e) { bad = true; return j; }
        if (*p == '{') {
            j.k = 'o'; p++; ws();
            if (p < e && *p == '}') { p++; return j; }
            while (!bad) {
                ws();
                if (p >= e || *p != '"') { bad = true; break; }
                std::string k = str();
                ws();
                if (p >= e || *p != ':') { bad = true; break; }
                p++;
                J v = val();
                j.o.push_back({k, v});
                ws();
                if (p < e && *p == ',') { p++; continue; }
                if (p < e && *p == '}') { p++; break; }
                bad = true;
            }
        }
        else if (*p == '[') {
            j.k = 'a'; p++; ws();
            if (p < e && *p == ']') { p++; return j; }
            while (!bad) {
                j.a.push_back(val());
                ws();
                if (p < e && *p == ',') { p++; continue; }
                if (p < e && *p == ']') { p++; break; }
                bad = true;
            }
        }
        else if (*p == '"') { j.k = 's'; j.s = str(); }
        else {
            char *q;
            j.k = 'n'; j.n = strtod(p, &q);
            if (q == p) bad = true;
            p = q;
        }
        return j;
    }
};

// ---- running the tool --------------------------------------------------------------------------------------------
static std::string g_tool;
struct Out { int status; std::string text; };
static std::string slurp(const std::string &f)
{
    std::string r;
    FILE *fp = fopen(f.c_str(), "rb");
    if (!fp) return r;
    char b[4096];
    size_t n;
    while ((n = fread(b, 1, sizeof b, fp)) > 0) r.append(b, n);
    fclose(fp);
    return r;
}
static Out tool(const std::vector<std::string> &args)
{
    std::string f = sim::dir() + "/ls.out", g = sim::dir() + "/ls.err";
    std::vector<char *> av;
    av.push_back((char *)g_tool.c_str());
    for (auto &a : args) av.push_back((char *)a.c_str());
    av.push_back(nullptr);
    pid_t pid = fork();
    if (!pid) {
        int fd = open(f.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), fe = open(g.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
        dup2(fd, 1); dup2(fe, 2);
        setenv("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=0", 1);
        struct rlimit lim = {1 << 24, 1 << 24};
        setrlimit(RLIMIT_FSIZE, &lim);
        alarm(10);
        execv(g_tool.c_str(), av.data());
        _exit(127);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    std::string t = slurp(f);
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) t = t.substr(0, 500) + "\n" + slurp(g).substr(0, 1500);
    return {st, t};
}

// what has to be there
struct Reg { uint64_t off[3], cnt[3]; };
struct Obj {
    uint64_t    id, cont;
    std::string app, name, tags;
    int         user, type, ts;
    std::vector<uint64_t> dims;
    int         pattern = 0;
    const rg::Obj *data = nullptr;
};
struct Expect {
    std::vector<Obj>      objs;
    std::set<uint64_t>    conts; // with objects
    int                   ncont = 0;
    bool                  gone = false; // an object with regions was deleted
};
static const char *tname(int t)
{
    switch (t) {
    case PDC_INT: return "PDC_INT"; case PDC_FLOAT: return "PDC_FLOAT"; case PDC_DOUBLE: return "PDC_DOUBLE"; case PDC_CHAR: return "PDC_CHAR";
    case PDC_INT64: return "PDC_INT64"; case PDC_UINT16: return "PDC_UINT16"; case PDC_UINT: return "PDC_UINT"; case PDC_UINT64: return "PDC_UINT64";
    case PDC_INT16: return "PDC_INT16"; case PDC_INT8: return "PDC_INT8";
    }
    return "?";
}
static bool re_match(const std::string &re, const std::string &s)
{
    regex_t r;
    if (regcomp(&r, re.c_str(), REG_NOSUB)) return re == s;
    bool m = regexec(&r, s.c_str(), 0, nullptr, 0) == 0;
    regfree(&r);
    return m;
}

// every element written is in a listed region, and the listed files hold the data
static void check_regions(Case &c, const J &list, const Obj &x, bool complete)
{
    const rg::Obj &o = *x.data;
    std::vector<uint8_t> val(o.n() * o.unit), have(o.n());
    bool resized = o.resized;
    for (auto &r : list.a) {
        const J *loc = r.get("storage_loc"), *off = r.get("offset"), *nd = r.get("num_dims"), *st = r.get("start"), *ct = r.get("count"), *us = r.get("unit_size");
        PBT_CHECK(c, loc && off && nd && st && ct && us && r.get("data_loc_type"), "region-fields", "a region of object '%s' lacks fields", x.name.c_str());
        PBT_CHECK(c, nd->n == o.ndim && st->a.size() == (size_t)o.ndim && ct->a.size() == (size_t)o.ndim, "region-ndim", "a region of object '%s' has %g dimensions, expected %d",
                  x.name.c_str(), nd->n, o.ndim);
        PBT_CHECK(c, us->n == o.unit, "region-unit", "a region of object '%s' has elements of %g bytes, expected %zu", x.name.c_str(), us->n, o.unit);
        rg::Box b;
        for (int d = 0; d < 3; d++) {
            b.off[d] = d < o.ndim ? (uint64_t)st->a[d].n : 0; b.cnt[d] = d < o.ndim ? (uint64_t)ct->a[d].n : 1;
            PBT_CHECK(c, b.cnt[d] && (resized || b.off[d] + b.cnt[d] <= o.dims[d]), "region-outside", "a region of object '%s' is outside the object", x.name.c_str());
        }
        std::string f = slurp(loc->s);
        size_t at = (size_t)off->n, n = b.cnt[0] * b.cnt[1] * b.cnt[2];
        PBT_CHECK(c, f.size() >= at + n * o.unit, "region-file", "a region of object '%s' is listed in '%s' at %zu, which has %zu bytes only", x.name.c_str(),
                  loc->s.c_str(), at, f.size());
        for (size_t i = 0; i < n; i++) {
            uint64_t e[3] = {b.off[0] + i / (b.cnt[1] * b.cnt[2]), b.off[1] + i / b.cnt[2] % b.cnt[1], b.off[2] + i % b.cnt[2]}, w = 0;
            bool in = true;
            for (int d = 0; d < 3; d++) {
                uint64_t m = d < o.ndim ? o.dims[d] : 1;
                if (e[d] >= m) in = false;
                w = w * m + e[d];
            }
            if (!in) continue;
            memcpy(&val[w * o.unit], &f[at + i * o.unit], o.unit);
            have[w] = 1;
        }
    }
    for (uint64_t i = 0; i < o.n(); i++) {
        if (!o.mask[i]) continue;
        if (!have[i] && !complete) continue;
        PBT_CHECK(c, have[i], "region-missing", "element %" PRIu64 " of object '%s', which was written, is in no listed region", i, x.name.c_str());
        PBT_CHECK(c, !memcmp(&val[i * o.unit], &o.val[i * o.unit], o.unit), "region-data", "element %" PRIu64 " of object '%s' in the listed file is not what was written", i,
                  x.name.c_str());
    }
}

static void ask(Case &c, const Expect &E, const std::string &path, bool whole, std::set<uint64_t> *seen)
{
    std::vector<std::string> args = {path};
    std::string re_n, re_i, out;
    bool ln = false, li = false, sum = false;
    std::vector<int> order;
    for (int i = 0; i < 6; i++) if (c.chance(1, 3)) order.insert(order.begin() + c.below(order.size() + 1), i);
    if (seen) order.erase(std::remove_if(order.begin(), order.end(), [](int i) { return i < 2; }), order.end());
    for (int i : order)
        switch (i) {
        case 0: {
            re_n = "nosuchname";
            if (E.objs.size() && !c.chance(1, 6)) {
                std::string n = E.objs[c.below(E.objs.size())].name;
                size_t a = c.below(n.size()), l = 1 + c.below(n.size() - a);
                re_n = c.pick({n, "^" + n + "$", n.substr(a, l), "^" + n.substr(0, l), n.substr(0, 1) + ".*", std::string("[ab].*")});
            }
            args.insert(args.end(), {"-n", re_n});
            break;
        }
        case 1: {
            std::string d = E.objs.size() ? std::to_string(E.objs[c.below(E.objs.size())].id) : "1000001";
            size_t a = c.below(d.size()), l = 1 + c.below(d.size() - a);
            re_i = c.pick({d, "^" + d + "$", d.substr(a, l), d.substr(d.size() - 1) + "$", d.substr(0, 1) + ".*", std::string(".*[13579]$"), "[^" + d.substr(d.size() - 1) + "]$"});
            args.insert(args.end(), {"-i", re_i});
            break;
        }
        case 2: ln = true; args.push_back("-ln"); break;
        case 3: li = true; args.push_back("-li"); break;
        case 4: sum = true; args.push_back("-s"); break;
        case 5: out = sim::dir() + "/ls.json"; args.insert(args.end(), {"-json", out}); break;
        }
    std::string cmd = "pdc_ls";
    for (auto &a : args) cmd += " " + (a.compare(0, sim::dir().size(), sim::dir()) ? a : "DIR" + a.substr(sim::dir().size()));
    c.note(" %.200s\n", cmd.c_str());
    Out r = tool(args);
    PBT_CHECK(c, WIFEXITED(r.status) && WEXITSTATUS(r.status) == 0, "crash", "%s ended with status 0x%x: %s", cmd.c_str(), r.status, r.text.c_str());
    std::string text;
    if (out.size()) { text = slurp(out); unlink(out.c_str()); }
    else {
        size_t at = r.text.rfind("\n{");
        if (at == std::string::npos) at = r.text.find("]!{") + 1; // the message on a file that cannot be opened has no end of line
        text = r.text.substr(at + 1);
    }
    JP P{text.data(), text.data() + text.size()};
    J j = P.val();
    P.ws();
    PBT_CHECK(c, !P.bad && j.k == 'o' && P.p == P.e, "no-json", "%s: the output is not a JSON object: %.300s", cmd.c_str(), text.c_str());
    std::vector<const Obj *> want;
    for (auto &x : E.objs)
        if ((re_n.empty() || re_match(re_n, x.name)) && (re_i.empty() || re_match(re_i, std::to_string(x.id)))) want.push_back(&x);
    std::set<std::string> keys;
    std::set<uint64_t> got;
    std::multiset<std::string> names;
    int nregions = 0;
    for (auto &f : j.o) {
        PBT_CHECK(c, keys.insert(f.first).second, "field-twice", "%s: field '%s' appears twice", cmd.c_str(), f.first.c_str());
        if (f.first.compare(0, 9, "cont_id: ")) continue;
        uint64_t cid = strtoull(f.first.c_str() + 9, nullptr, 10);
        PBT_CHECK(c, E.conts.count(cid), "container", "%s: lists container %" PRIu64 ", in which no object was created", cmd.c_str(), cid);
        for (auto &y : f.second.a) {
            const J *id = y.get("obj_id"), *app = y.get("app_name"), *nm = y.get("obj_name"), *us = y.get("user_id"), *tg = y.get("tags"), *ty = y.get("data_type"),
                    *nd = y.get("num_dims"), *dm = y.get("dims"), *ts = y.get("time_step"), *rl = y.get("region_list_info");
            PBT_CHECK(c, id && app && nm && us && tg && ty && nd && dm && ts && rl, "fields", "%s: an object lacks fields", cmd.c_str());
            const Obj *x = nullptr;
            for (auto *w : want) if ((double)w->id == id->n) x = w;
            PBT_CHECK(c, x, "extra", "%s: lists object '%.40s' (id %.0f), which does not exist or does not match", cmd.c_str(), nm->s.c_str(), id->n);
            PBT_CHECK(c, got.insert(x->id).second, "twice", "%s: lists object '%.40s' twice", cmd.c_str(), nm->s.c_str());
            PBT_CHECK(c, x->cont == cid, "container", "%s: object '%.40s' is listed in container %" PRIu64 ", expected %" PRIu64, cmd.c_str(), nm->s.c_str(), cid, x->cont);
            PBT_CHECK(c, app->s == x->app && nm->s == x->name && tg->s == x->tags, "strings", "%s: object '%.40s' is listed as '%.40s', application '%s', tags '%s'; expected '%s', '%s'",
                      cmd.c_str(), x->name.c_str(), nm->s.c_str(), app->s.c_str(), tg->s.c_str(), x->app.c_str(), x->tags.c_str());
            PBT_CHECK(c, us->n == x->user && ts->n == x->ts && ty->s == tname(x->type), "attributes", "%s: object '%.40s' is listed with user %g, step %g, type %s; expected %d, %d, %s",
                      cmd.c_str(), x->name.c_str(), us->n, ts->n, ty->s.c_str(), x->user, x->ts, tname(x->type));
            PBT_CHECK(c, nd->n == x->dims.size() && dm->a.size() == x->dims.size(), "ndim", "%s: object '%.40s' is listed with %g dimensions", cmd.c_str(), x->name.c_str(), nd->n);
            for (size_t i = 0; i < x->dims.size(); i++)
                PBT_CHECK(c, fabs(dm->a[i].n - (double)x->dims[i]) <= 1e-15 * x->dims[i], "dims", "%s: dimension %zu of object '%.40s' is listed as %.0f, expected %" PRIu64, cmd.c_str(), i, x->name.c_str(),
                          dm->a[i].n, x->dims[i]);
            nregions += (int)rl->a.size();
            if (x->data) check_regions(c, *rl, *x, whole);
            names.insert(nm->s);
        }
    }
    if (seen) for (auto i : got) PBT_CHECK(c, seen->insert(i).second, "two-files", "object %" PRIu64 " is in two servers' checkpoints", i);
    if (whole)
        for (auto *w : want) PBT_CHECK(c, got.count(w->id), "missing", "%s: does not list object '%.40s' (id %" PRIu64 ")", cmd.c_str(), w->name.c_str(), w->id);
    PBT_CHECK(c, ln == (j.get("all_obj_names") != nullptr) && li == (j.get("all_obj_ids") != nullptr) && sum == (j.get("summary") != nullptr), "options",
              "%s: shows lists that were not asked for, or not those that were", cmd.c_str());
    if (ln) {
        std::multiset<std::string> n;
        for (auto &y : j.get("all_obj_names")->a) n.insert(y.s);
        PBT_CHECK(c, n == names, "names", "%s: the list of names has %zu entries, %zu objects are shown", cmd.c_str(), n.size(), names.size());
    }
    if (li) {
        std::multiset<double> n, e;
        for (auto &y : j.get("all_obj_ids")->a) n.insert(y.n);
        for (auto i : got) e.insert((double)i);
        PBT_CHECK(c, n == e, "ids", "%s: the list of ids is not that of the shown objects", cmd.c_str());
    }
    if (sum && whole) {
        int nc = -1, no = -1;
        int nr = -1;
        sscanf(j.get("summary")->s.c_str(), "pdc_ls found: %d containers, %d objects, %d regions", &nc, &no, &nr);
        PBT_CHECK(c, nc == E.ncont, "summary", "%s: '%s', expected %d containers", cmd.c_str(), j.get("summary")->s.c_str(), E.ncont);
        if (want.size() == E.objs.size() && !E.gone)
            PBT_CHECK(c, nr == nregions, "summary", "%s: '%s', but %d regions are shown", cmd.c_str(), j.get("summary")->s.c_str(), nregions);
        PBT_CHECK(c, no == (int)E.objs.size(), "summary", "%s: '%s', expected %zu objects", cmd.c_str(), j.get("summary")->s.c_str(), E.objs.size());
        c.label("summary");
    }
    if (want.size()) c.label("objects shown");
}
static void ask_all(Case &c, const Expect &E, int ns)
{
    std::string tmp = sim::dir() + "/tmp";
    int n = 1 + (int)c.below(3);
    if (c.chance(1, 8)) { // a link to a file that went away
        std::string d = tmp + "/77";
        mkdir(d.c_str(), 0700);
        if (symlink("gone", (d + "/metadata_checkpoint.77").c_str())) c.discard();
        c.note(" a checkpoint file cannot be opened\n");
    }
    for (int i = 0; i < n; i++) { c.span_begin(); ask(c, E, tmp + (c.chance(1, 4) ? "/" : ""), true, nullptr); c.span_end(); }
    if (c.chance(1, 3)) {
        std::set<uint64_t> seen;
        for (int s = 0; s < ns; s++) ask(c, E, tmp + "/" + std::to_string(s) + (c.flip() ? "/metadata_checkpoint." + std::to_string(s) : ""), ns == 1, &seen);
        for (auto &o : E.objs) PBT_CHECK(c, seen.count(o.id), "missing", "object '%.40s' is in no server's checkpoint", o.name.c_str());
    }
}

static void end_of_run(Case &c)
{
    sim::await_servers_end();
    for (auto &e : sim::protocol_errors()) c.fail("protocol", "%s", e.c_str());
}
static void run_meta(Case &c, int ns)
{
    World W(c, LIFE);
    W.gen_names();
    if (c.chance(1, 3)) W.names.push_back(c.pick({std::string("100%s"), std::string("%n%n"), std::string("a\"b\\c"), std::string("x.y"), std::string("5%"), std::string("t\tu")}));
    W.start(ns, 1 + (int)c.below(2));
    W.col_create_cont("cont", false);
    W.owner["cont"] = -1;
    W.barrier();
    int ph = 1 + (int)c.below(2);
    for (int f = 0; f < ph; f++) W.change_phase(10);
    sim::servers(ns);
    sim::clients(W.nc, [&](sim::Proc &p) { W.body(p); });
    end_of_run(c);
    Expect E;
    for (size_t i = 0; i < W.ents.size(); i++) {
        Ent &e = W.ents[i];
        if (!e.alive) { E.gone = true; continue; }
        if (e.cont) { E.ncont++; continue; }
        Obj o{W.S.meta[i], W.S.meta[e.in], e.app, e.name, e.tags, e.user, e.type, e.ts, std::vector<uint64_t>(e.dims, e.dims + e.ndim)};
        E.objs.push_back(o);
        E.conts.insert(o.cont);
    }
    if (E.objs.size()) c.nontrivial();
    ask_all(c, E, ns);
}
static void run_data(Case &c, int ns)
{
    rg::Plan P;
    rg::gen_plan(c, P, ns, 1 + (int)c.weighted({3, 2}), 3, 2, 5);
    std::vector<uint64_t> ids(P.objs.size());
    uint64_t cont = 0;
    std::set<size_t> gone;
    if (c.chance(1, 4)) { gone.insert(c.below(P.objs.size())); c.note(" object %zu is deleted\n", *gone.begin()); }
    sim::servers(ns);
    sim::clients(P.nclient, [&](sim::Proc &p) {
        rg::Runner r(p, c, P);
        r.init();
        r.create();
        r.run();
        r.barrier();
        if (r.cl == 0) {
            cont = vs_cont_meta(SIM(p, PDC_cont_get_info)(r.cont));
            for (size_t i = 0; i < P.objs.size(); i++) ids[i] = SIM(p, PDCobj_get_info)(r.obj[i])->meta_id;
            for (size_t i : gone) PBT_CHECK(c, SIM(p, PDCobj_del)(r.obj[i]) >= 0, "del", "deleting object %zu failed", i);
        }
        r.barrier();
        r.close();
    });
    end_of_run(c);
    Expect E;
    for (size_t i = 0; i < P.objs.size(); i++) {
        rg::Obj &o = P.objs[i];
        if (gone.count(i)) continue;
        Obj x{ids[i], cont, "app", o.name, " ", 1000, o.type, 0, std::vector<uint64_t>(o.dims, o.dims + o.ndim)};
        x.data = &o;
        E.objs.push_back(x);
        E.conts.insert(cont);
    }
    E.conts.insert(cont);
    E.ncont = 1;
    E.gone = !gone.empty();
    if (P.nwrites) c.nontrivial();
    c.label("region data");
    ask_all(c, E, ns);
}
static void run(Case &c)
{
    sim::begin(c);
    sim::connections(c);
    int ns = 1 + (int)c.below(3);
    if (c.flip()) run_meta(c, ns);
    else run_data(c, ns);
    sim::end();
}
int main(int argc, char **argv)
{
    char b[4096];
    ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1);
    b[n > 0 ? n : 0] = 0;
    g_tool = b;
    g_tool = g_tool.substr(0, g_tool.rfind('/')) + "/tool_pdc_ls";
    sim::preload(3, 3);
    pbt::Property p{"C34", "each case runs a generated history of metadata operations or region transfers on 1-3 servers, closes them and asks pdc_ls for what they left, with generated options; "
        "non-trivial: objects or written data are left", 2500u, 60000u, 1, 60, run};
    p.assumptions = {"Mercury, MPI, threads and clocks are deterministic stand-ins"};
    return pbt::run_main(argc, argv, p);
}
