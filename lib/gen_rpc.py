#!/usr/bin/env python3
"""Writes a table of the messages of the repository's requests: for every struct that has a Mercury encoding routine
its fields (kind, offset, size), and for every request its input and output struct.  The table describes types only; the
encoding routines the check runs are the ones compiled into the client and server libraries."""
import re, subprocess, os

KIND = {}
for n in ("uint64_t int64_t hg_uint64_t hg_int64_t uint32_t int32_t hg_uint32_t hg_int32_t uint16_t int16_t uint8_t int8_t "
          "hg_uint8_t hg_int8_t int unsigned pdcid_t size_t hg_size_t char long double float hg_id_t hg_bool_t").split():
    KIND[n] = "K_NUM"
KIND["unsigned int"] = KIND["unsigned char"] = KIND["long long"] = "K_NUM"
KIND["pdc_var_type_t"] = "K_ENUM"
KIND["hg_string_t"] = KIND["hg_const_string_t"] = KIND["const char *"] = KIND["char *"] = "K_STR"
KIND["hg_bulk_t"] = "K_BULK"
KIND["bool"] = KIND["_Bool"] = KIND["hg_bool_t"] = "K_BOOL"

def fields(body):
    out = []
    for d in body.split(";"):
        d = " ".join(d.split())
        if not d: continue
        m = re.match(r"^((?:const |unsigned |struct |enum )*\w+)\s*(.*)$", d)
        base = m.group(1)
        for one in m.group(2).split(","):
            k = re.match(r"^\s*(\**)\s*(\w+)\s*((?:\[[^]]*\])*)\s*$", one)
            if not k: return None
            out.append((base + (" " + k.group(1) if k.group(1) else ""), k.group(2), k.group(3)))
    return out

def generate(cc, flags, header_text, sources, tmp):
    open(tmp, "w").write(header_text)
    r = subprocess.run([cc, "-E", "-P"] + flags + [tmp], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    os.remove(tmp)
    if r.returncode != 0: raise SystemExit("gen_rpc: " + r.stderr[:2000])
    t = r.stdout
    types = {}
    for m in re.finditer(r"typedef\s+struct\s*(?:__attribute__\(\([^()]*\)\)\s*)?(\w+)?\s*\{([^{}]*)\}\s*(\w+)\s*;", t):
        types[m.group(3)] = m.group(2)
    for m in re.finditer(r"typedef\s+enum\s*(\w+)?\s*\{[^{}]*\}\s*(\w+)\s*;", t):
        KIND.setdefault(m.group(2), "K_ENUM")
    regs = []
    for s in sources:
        txt = open(s).read()
        for m in re.finditer(r"^PDC_FUNC_DECLARE_REGISTER(_IN_OUT)?\(([^)]*)\)", txt, re.M):
            a = [x.strip() for x in m.group(2).split(",")]
            regs.append((a[0], a[1], a[2]) if m.group(1) else (a[0], a[0] + "_in_t", a[0] + "_out_t"))
        # requests registered without the macro
        for m in re.finditer(r'MERCURY_REGISTER\(\s*hg_class\s*,\s*"(\w+)"\s*,\s*(\w+)\s*,\s*(\w+)\s*,', txt):
            regs.append((m.group(1), m.group(2), m.group(3)))
    order, bad = [], {}
    def visit(n):
        if n in order or n in bad: return n in order
        if n not in types: bad[n] = "no struct"; return False
        fs = fields(types[n])
        if fs is None: bad[n] = "fields"; return False
        for ty, f, arr in fs:
            if ty in types and not arr: visit(ty)
        order.append(n)
        return True
    for r0 in regs: visit(r0[1]); visit(r0[2])
    w = []
    for n in order:
        w.append("static const field_t F_%s[] = {" % n)
        for ty, f, arr in fields(types[n]):
            if n == "pdc_query_xfer_t" and f in ("combine_ops", "constraints"): k, x = "K_PTR", -1
            elif arr: k, x = ("K_CHARS", -1) if ty == "char" else ("K_BYTES", -1)
            elif ty in KIND: k, x = KIND[ty], -1
            elif ty in types and ty in order: k, x = "K_STRUCT", order.index(ty)
            elif ty.endswith("*"): k, x = "K_PTR", -1
            else: k, x = "K_SKIP", -1
            w.append('    {"%s", %s, offsetof(%s, %s), sizeof(((%s *)0)->%s), %d},' % (f, k, n, f, n, f, x))
        w.append("    {0}};")
    w.append("static const struct_t STRUCTS[] = {")
    for n in order: w.append('    {"%s", sizeof(%s), F_%s},' % (n, n, n))
    w.append("    {0}};")
    w.append("static const rpc_t RPCS[] = {")
    for name, i, o in regs:
        w.append('    {"%s", %d, %d},' % (name, order.index(i) if i in order else -1, order.index(o) if o in order else -1))
    w.append("    {0}};")
    return "\n".join(w) + "\n"
