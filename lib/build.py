#!/usr/bin/env python3
"""Builds what a check needs from /repo's current working tree.

usage: build.py <check-name> [...]      -> prints the path of the built binary of each check
Object files are cached by a hash of (source text of everything under /repo/src that could be included,
compile command), so a changed tree is always recompiled.
"""
import sys, os, hashlib, subprocess, re, glob, json
from concurrent.futures import ThreadPoolExecutor

VERIF = os.environ.get("VERIF_DIR", os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
CC = os.environ.get("VERIF_CC", "clang")
CXX = os.environ.get("VERIF_CXX", "clang++")
SAN = ["-fsanitize=address", "-fno-sanitize-address-use-odr-indicator", "-fno-omit-frame-pointer"]
BASE = ["-g1", "-O1", "-fPIC", "-w"] + SAN

def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout

CFG = dict(PDC_VERSION_MAJOR="0", PDC_VERSION_MINOR="1", PDC_VERSION_PATCH="0", PDC_DART_SFX_TREE="1",
           ENABLE_MPI="1", PDC_SERVER_CACHE="1", PDC_ENABLE_CHECKPOINT="1", HAVE_ATTRIBUTE="1",
           PDC_SERVER_CACHE_MAX_GB="3", PDC_SERVER_CACHE_FLUSH_TIME="30",
           VAR_SIZE_FLOAT="4", VAR_SIZE_DOUBLE="8", VAR_SIZE_CHAR="1", VAR_SIZE_SINT="2", VAR_SIZE_INT="4",
           VAR_SIZE_LINT="8", VAR_SIZE_LLINT="8", VAR_SIZE_UINT="4", VAR_SIZE_ULINT="8", VAR_SIZE_ULLINT="8",
           VAR_SIZE_64INT="8", VAR_SIZE_U64INT="8")

def configure(src, dst):
    out = []
    for line in open(src):
        m = re.match(r"#cmakedefine\s+(\w+)\s*(.*)", line)
        if m:
            if m.group(1) in CFG:
                v = re.sub(r"@(\w+)\s*@", lambda k: CFG.get(k.group(1), ""), m.group(2))
                line = "#define %s %s\n" % (m.group(1), v)
            else:
                line = "/* #undef %s */\n" % m.group(1)
        else:
            line = re.sub(r"@(\w+)\s*@", lambda k: CFG.get(k.group(1), ""), line)
        out.append(line)
    text = "".join(out)
    if not os.path.exists(dst) or open(dst).read() != text:
        open(dst, "w").write(text)

def header_hash():
    h = hashlib.sha256()
    files = []
    for root in (REPO + "/src", VERIF + "/sim", VERIF + "/lib", VERIF + "/checks"):
        for d, _, fs in os.walk(root):
            if "/tests" in d: continue
            for f in fs:
                if f.endswith((".h", ".hpp")) or f.endswith("cmake") or f.endswith(".in"):
                    files.append(os.path.join(d, f))
    files += [REPO + "/pdc_config.h.in", REPO + "/pdc_config_sys.h.cmake"]
    for f in sorted(files):
        h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()

COMMON_INC = sorted({os.path.dirname(f) for f in glob.glob(REPO + "/src/commons/**/*.h", recursive=True)
                     if "/serde/" not in f})
API_INC = [REPO + "/src/server"] + sorted({os.path.dirname(f) for d in ("api", "server", "utils")
                  for f in glob.glob(REPO + "/src/%s/**/*.h" % d, recursive=True)})
TOOL_INC = [REPO + "/src/tools/cjson"]
MACROS = ["-std=gnu99", "-DNDEBUG", "-fno-common", "-DPDC_SERVER_CACHE_MAX_GB=3", "-DPDC_SERVER_CACHE_FLUSH_TIME=30",
          "-DHAVE_MALLOC_USABLE_SIZE"]
WRAP = """sleep usleep nanosleep time gettimeofday clock system exit shm_open shm_unlink pthread_create pthread_join
pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_unlock pthread_mutex_trylock pthread_cond_init
pthread_cond_destroy pthread_cond_wait pthread_cond_timedwait pthread_cond_signal pthread_cond_broadcast srand rand
random gethostname fork abort pthread_detach pthread_kill fopen rename remove unlink
write lseek pread""".split()

def incs(*ds):
    return ["-I" + d for l in ds for d in l]

def commons_sources():
    r = []
    for f in sorted(glob.glob(REPO + "/src/commons/**/*.c", recursive=True)):
        if "/serde/" in f or f.endswith("_test.c"): continue
        r.append(f)
    return r

S = REPO + "/src/"
CLIENT = [S + "api/" + f for f in """pdc.c pdc_client_connect.c pdc_obj/pdc_prop.c pdc_obj/pdc_cont.c pdc_obj/pdc_obj.c
pdc_obj/pdc_mpi.c pdc_analysis/pdc_analysis_and_transforms_connect.c pdc_analysis/pdc_analysis_common.c
pdc_analysis/pdc_analysis.c pdc_analysis/pdc_hist_pkg.c pdc_query/pdc_query.c pdc_region/pdc_region.c
pdc_region/pdc_region_transfer.c pdc_transform/pdc_transform.c pdc_transform/pdc_transforms_common.c""".split()]
CLIENT += [S + "server/" + f for f in """pdc_client_server_common.c pdc_server_region/pdc_server_region_transfer.c
pdc_server_region/pdc_server_region_cache.c pdc_server_region/pdc_server_region_transfer_metadata_query.c""".split()]
CLIENT += [S + "utils/" + f for f in "pdc_interface.c pdc_region_utils.c".split()]
SERVER = [S + "server/" + f for f in """pdc_server.c pdc_server_metadata_index.c pdc_server_metadata.c
pdc_client_server_common.c pdc_hash-table.c dablooms/pdc_dablooms.c dablooms/pdc_murmur.c
pdc_server_analysis/pdc_server_analysis.c pdc_server_region/pdc_server_data.c pdc_server_region/pdc_server_region_cache.c
pdc_server_region/pdc_server_region_transfer.c
pdc_server_region/pdc_server_region_transfer_metadata_query.c""".split()]
SERVER += [S + "utils/pdc_region_utils.c", S + "api/pdc_analysis/pdc_analysis_common.c",
           S + "api/pdc_analysis/pdc_hist_pkg.c", S + "api/pdc_transform/pdc_transforms_common.c"]

def gen_rpc():
    import gen_rpc as G
    d = OUT + "/gen"
    os.makedirs(d, exist_ok=True)
    srcs = sorted(glob.glob(S + "server/*.c") + glob.glob(S + "api/**/*.c", recursive=True))
    hdr = '#include "pdc_client_server_common.h"\n#include "pdc_analysis_and_transforms_common.h"\n#include "pdc_transforms_common.h"\n'
    h = hashlib.sha256()
    for side, m in (("client", []), ("server", ["-DIS_PDC_SERVER=1"])):
        f = BASE + MACROS + m + incs([OUT + "/cfg"], [VERIF + "/sim/include"], COMMON_INC, API_INC, [REPO])
        text = G.generate(CC, f, hdr, srcs, d + "/pre_%s_%d.c" % (side, os.getpid()))
        h.update(text.encode())
        p = d + "/rpc_table_%s.inc" % side
        if not os.path.exists(p) or open(p).read() != text: open(p, "w").write(text)
    return ["-I" + d, "-DGEN_HASH=0x" + h.hexdigest()[:12]]

HH = None
def compile_one(src, flags, cc, outdir):
    global HH
    h = hashlib.sha256()
    h.update(HH.encode()); h.update(open(src, "rb").read()); h.update(" ".join([cc] + flags + [src]).encode())
    if src.startswith(REPO):  # textual includes of .c files
        pass
    o = os.path.join(outdir, re.sub(r"[^A-Za-z0-9_.]", "_", src[-40:]) + "-" + h.hexdigest()[:20] + ".o")
    if os.path.exists(o):
        return o, 0, ""
    tmp = o + ".tmp%d" % os.getpid()
    rc, out = sh([cc] + flags + ["-c", src, "-o", tmp])
    if rc == 0:
        os.rename(tmp, o)
    return o, rc, out

def compile_all(jobs):
    """jobs: list of (src, flags, cc)"""
    od = OUT + "/obj"
    os.makedirs(od, exist_ok=True)
    # biggest first
    order = sorted(range(len(jobs)), key=lambda i: -os.path.getsize(jobs[i][0]))
    res = [None] * len(jobs)
    with ThreadPoolExecutor(max_workers=int(os.environ.get("VERIF_JOBS", "8"))) as ex:
        fut = {i: ex.submit(compile_one, *jobs[i], od) for i in order}
        for i in order:
            res[i] = fut[i].result()
    bad = [(jobs[i][0], r[2]) for i, r in enumerate(res) if r[1] != 0]
    if bad:
        for s, o in bad:
            sys.stderr.write("COMPILE FAILED %s\n%s\n" % (s, o[:4000]))
        sys.exit(3)
    return [r[0] for r in res]

def jobs_for(kind):
    cfg = OUT + "/cfg"
    if kind == "commons":  # Mercury-free part as the repository's own build compiles it
        f = BASE + MACROS + incs([cfg], [VERIF + "/sim/include"], COMMON_INC, [REPO])
        return [(s, f, CC) for s in commons_sources()]
    if kind == "commons_steps":  # the same with a callback at every memory access, where a scheduler may switch threads
        return [(s, f + ["-fsanitize-coverage=bb,trace-loads,trace-stores"], c) for s, f, c in jobs_for("commons")]
    if kind == "mfree":    # other Mercury-free sources
        f = BASE + MACROS + ["-DIS_PDC_SERVER=1"] + incs([cfg], [VERIF + "/sim/include"], COMMON_INC, API_INC, [REPO])
        return [(s, f, CC) for s in [S + "server/dablooms/pdc_dablooms.c", S + "server/dablooms/pdc_murmur.c",
                                     S + "utils/pdc_region_utils.c"]]
    if kind == "hist":     # histograms
        f = BASE + MACROS + ["-DIS_PDC_SERVER=1"] + incs([cfg], [VERIF + "/sim/include"], COMMON_INC, API_INC, [REPO])
        return [(S + "api/pdc_analysis/pdc_hist_pkg.c", f, CC)]
    if kind == "srvhash":  # the server's hash table beside the commons one
        names = """hash_table_new hash_table_free hash_table_register_free_functions hash_table_insert hash_table_lookup
        hash_table_remove hash_table_num_entries hash_table_iterate hash_table_iter_has_more hash_table_iter_next""".split()
        f = BASE + MACROS + ["-DIS_PDC_SERVER=1"] + ["-D%s=srv_%s" % (n, n) for n in names] + incs([cfg], [VERIF + "/sim/include"], COMMON_INC, API_INC, [REPO])
        return [(S + "server/pdc_hash-table.c", f, CC)]
    if kind == "cjson":
        return [(S + "tools/cjson/cJSON.c", BASE + MACROS, CC)]
    if kind == "pdc_ls":   # the tool, a program of its own
        f = BASE + MACROS + ["-DPDC_LUSTRE_TOTAL_OST=1"] + incs([cfg], [VERIF + "/sim/include"], COMMON_INC, API_INC, [S + "tools"], [REPO], [S[:-1] if S.endswith("/") else S])
        return [(S + "tools/pdc_ls.c", f, CC), (S + "tools/cjson/cJSON.c", f, CC)]
    if kind == "client":
        f = BASE + MACROS + ["-fcommon"] + incs([cfg], [VERIF + "/sim/include"], COMMON_INC, API_INC, [REPO])
        return [(s, f, CC) for s in CLIENT]
    if kind == "server":
        f = BASE + MACROS + ["-fcommon", "-DIS_PDC_SERVER=1", "-DPDC_LUSTRE_TOTAL_OST=1"] + incs([cfg], [VERIF + "/sim/include"],
                                                                                  COMMON_INC, API_INC, [REPO])
        return [(s, f, CC) for s in SERVER]
    raise SystemExit("unknown kind " + kind)

def link(cmd, out, deps):
    h = hashlib.sha256()
    for d in deps: h.update(d.encode())
    h.update(" ".join(cmd).encode())
    stamp = out + ".stamp"
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == h.hexdigest():
        return
    rc, o = sh(cmd + ["-o", out + ".tmp"])
    if rc != 0:
        sys.stderr.write("LINK FAILED %s\n%s\n" % (out, o[:6000])); sys.exit(3)
    os.rename(out + ".tmp", out)
    open(stamp, "w").write(h.hexdigest())

def archive(out, objs):
    stamp, key = out + ".stamp", "\n".join(objs)
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == key:
        return
    if os.path.exists(out): os.remove(out)
    rc, o = sh(["ar", "rcs", out] + objs)
    if rc != 0:
        sys.stderr.write("AR FAILED %s\n" % o); sys.exit(3)
    open(stamp, "w").write(key)

def setup():
    global HH
    os.makedirs(OUT + "/cfg", exist_ok=True)
    configure(REPO + "/pdc_config.h.in", OUT + "/cfg/pdc_config.h")
    configure(REPO + "/pdc_config_sys.h.cmake", OUT + "/cfg/pdc_config_sys.h")
    HH = header_hash()

def build(checks):
    setup()
    spec = json.load(open(VERIF + "/checks/checks.json"))
    jobs, owner = [], []
    need = {}
    for c in checks:
        sp = spec[c]
        for k in sp.get("kinds", []) + sp.get("tools", []):
            need.setdefault(k, [])
        if sp.get("tools"): need.setdefault("commons", [])
        if sp.get("sim"):
            need.setdefault("commons", []); need.setdefault("client", []); need.setdefault("server", [])
    for k in need:
        for j in jobs_for(k):
            jobs.append(j); owner.append(("kind", k))
    cxxf = BASE + ["-std=c++17", "-I" + VERIF + "/lib", "-I" + VERIF + "/sim"]
    jobs.append((VERIF + "/lib/pbt.cpp", cxxf, CXX)); owner.append(("kind", "pbt"))
    if any(spec[c].get("sim") for c in checks):
        jobs.append((VERIF + "/sim/core.cpp", cxxf + incs([VERIF + "/sim/include"]), CXX)); owner.append(("kind", "core"))
    for c in checks:
        sp = spec[c]
        inc = incs([OUT + "/cfg"], [VERIF + "/sim/include"], COMMON_INC, API_INC, TOOL_INC, [REPO])
        if sp.get("gen"): inc = inc + gen_rpc() + ["-I" + VERIF + "/checks"]
        for s in sp["src"]:
            src = VERIF + "/checks/" + s
            if s.endswith(".c"):
                jobs.append((src, BASE + MACROS + sp.get("flags", []) + ["-I" + VERIF + "/sim", "-I" + VERIF + "/lib"] + inc, CC))
            else:
                jobs.append((src, cxxf + sp.get("flags", []) + inc, CXX))
            owner.append(("check", c))
    objs = compile_all(jobs)
    by = {}
    for o, w in zip(objs, owner):
        by.setdefault(w, []).append(o)
    libs = {}
    if any(spec[c].get("sim") for c in checks):
        wrap = ["-Wl,--wrap=" + w for w in WRAP]
        # an archive, as the repository links it: the server's own hash table takes the place of the one in commons
        arc = OUT + "/libcommons.a"
        archive(arc, by[("kind", "commons")])
        for side in ("client", "server"):
            so = OUT + "/libpdc_%s.so" % side
            o = by[("kind", side)]
            link([CC, "-shared", "-nodefaultlibs", "-Wl,-Bsymbolic"] + wrap + o + [arc, "-lm", "-luuid", "-lc", "-Wl,-z,lazy"],
                 so, o + by[("kind", "commons")])
            libs[side] = so
    for t in {t for c in checks for t in spec[c].get("tools", [])}:
        arc = OUT + "/libcommons.a"
        archive(arc, by[("kind", "commons")])
        link([CC, "-fsanitize=address"] + by[("kind", t)] + [arc, "-lm", "-luuid", "-lpthread"], OUT + "/tool_" + t, by[("kind", t)] + by[("kind", "commons")])
    bins = []
    for c in checks:
        sp = spec[c]
        b = OUT + "/check_" + c
        o = by[("check", c)] + by[("kind", "pbt")]
        for k in sp.get("kinds", []):
            if k not in ("client", "server") and not (sp.get("sim")):
                o = o + by[("kind", k)]
        cmd = [CXX, "-fsanitize=address", "-rdynamic"]
        if sp.get("sim"):
            o = o + by[("kind", "core")]
        cmd += o + sp.get("libs", []) + ["-lm", "-luuid", "-lpthread", "-ldl"]
        link(cmd, b, o)
        bins.append(b)
    return bins

if __name__ == "__main__":
    for b in build(sys.argv[1:]):
        print(b)
