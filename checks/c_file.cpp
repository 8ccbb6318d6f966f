// C28: the file helpers store and return exactly the given bytes and report what they could not store.
#include "pbt.hpp"
#include <unistd.h>
#include <sys/stat.h>
#include <dirent.h>
extern "C" {
#include "common_io.h"
}
using pbt::Case;
typedef std::string Str;
static char DIR_[] = "/tmp/vp-file-XXXXXX";
static std::vector<Str> seen;
extern "C" void on_line(char *l) { seen.push_back(l); }

struct Buf { // exactly sized
    char *p; size_t n;
    Buf(const Str &s) : p((char *)malloc(s.size() ? s.size() : 1)), n(s.size()) { memcpy(p, s.data(), n); }
    Buf(size_t k) : p((char *)malloc(k ? k : 1)), n(k) { memset(p, 0xa5, k ? k : 1); }
    Buf(const Buf &) = delete;
    ~Buf() { free(p); }
};
static Str
line(Case &c)
{
    Str s;
    size_t n = c.weighted({5, 2, 1}) ;
    n = n == 0 ? c.below(8) : n == 1 ? c.below(40) : 100 + c.below(200);
    for (size_t i = 0; i < n; i++) { char ch = (char)(1 + c.below(255)); s += ch == '\n' ? ' ' : ch; }
    return s;
}
static Str
blob(Case &c)
{
    Str s;
    size_t n = c.weighted({5, 2, 1});
    n = n == 0 ? c.below(12) : n == 1 ? c.below(100) : 4080 + c.below(40); // around the stream's buffer
    bool rep = n > 200;
    char r = rep ? (char)c.below(256) : 0;
    for (size_t i = 0; i < n; i++) s += rep ? (char)(r + i * 7) : c.chance(1, 5) ? "\n\r\0 x"[c.below(5)] : (char)c.below(256);
    return s;
}
static Str
slurp(const Str &f)
{
    Str s;
    FILE *fp = fopen(f.c_str(), "rb");
    if (!fp) return "<missing>";
    int ch;
    while ((ch = getc(fp)) != EOF) s += (char)ch;
    fclose(fp);
    return s;
}
static Str
esc(const Str &s)
{
    Str o; char t[8];
    for (size_t i = 0; i < s.size() && i < 60; i++) {
        unsigned char ch = s[i];
        if (ch >= 32 && ch < 127) o += ch;
        else { snprintf(t, sizeof t, "\\x%02x", ch); o += t; }
    }
    return "\"" + o + (s.size() > 60 ? "...\"" : "\"");
}
static int
open_fds()
{
    int n = 0;
    if (DIR *d = opendir("/proc/self/fd")) { while (readdir(d)) n++; closedir(d); }
    return n;
}
static void
run(Case &c)
{
    Str path[3];
    std::map<int, Str> m;
    for (int i = 0; i < 3; i++) { path[i] = Str(DIR_) + "/" + std::to_string(getpid()) + "." + std::to_string(i); unlink(path[i].c_str()); }
    int writes = 0, reads = 0;
    c.list(1, 8, 30, [&](size_t) {
        int i = (int)c.below(3);
        bool have = m.count(i);
        size_t op = c.below(have ? 12 : 5);
        if (!have && op == 4) op = 11;
        int fds = open_fds();
        char *f = strdup(path[i].c_str());
        switch (op) {
            case 0: { // lines
                std::vector<Str> L; c.list(0, 4, 12, [&](size_t) { L.push_back(line(c)); });
                std::vector<char *> a; Str all;
                for (auto &s : L) { a.push_back(strdup(s.c_str())); all += s + "\n"; }
                char **ex = (char **)malloc(sizeof(char *) * (a.size() + (a.empty())));
                for (size_t k = 0; k < a.size(); k++) ex[k] = a[k];
                c.note("write %zu lines to file %d\n", L.size(), i);
                int r = write_text_file(f, ex, a.size());
                free(ex); for (char *p : a) free(p);
                PBT_CHECK(c, r == 0, "write-text", "write_text_file returns %d", r);
                m[i] = all; writes++;
                break;
            }
            case 1: {
                Str s = blob(c); Buf b(s);
                c.note("write %zu bytes to file %d\n", s.size(), i);
                int r = write_binary_file(f, b.p, b.n);
                PBT_CHECK(c, r == 0, "write-binary", "write_binary_file returns %d", r);
                m[i] = s; writes++;
                break;
            }
            case 2: { // pieces through an open file
                bool app = have && c.flip();
                FILE *fp = open_file(f, (char *)(app ? IO_MODE_APPEND : IO_MODE_WRITE));
                if (!app) m[i] = "";
                c.note("%s file %d\n", app ? "append to" : "rewrite", i);
                c.list(0, 2, 6, [&](size_t) {
                    Str s = blob(c); Buf b(s); io_buffer_t io{b.p, b.n};
                    PBT_CHECK(c, write_file(fp, &io) == 0, "write", "write_file fails");
                    m[i] += s;
                });
                PBT_CHECK(c, close_file(fp) == 0, "close", "close_file fails");
                writes++;
                break;
            }
            case 3: { // a full device: what cannot be stored is reported
                if (access("/dev/full", W_OK)) break;
                char full[] = "/dev/full";
                Str s = blob(c) + "x"; Buf b(s);
                char one[] = "line", *l[] = {one};
                bool text = c.flip();
                c.note("write to a full device\n");
                int r = text ? write_text_file(full, l, 1) : write_binary_file(full, b.p, b.n);
                PBT_CHECK(c, r != 0, "full", "%s to a full device reports success", text ? "write_text_file" : "write_binary_file");
                break;
            }
            case 4: { // whole file
                FILE *fp = open_file(f, (char *)IO_MODE_READ);
                io_buffer_t io{nullptr, 0};
                if (c.flip() && m[i].size()) fseek(fp, (long)c.below(m[i].size()), SEEK_SET);
                c.note("read file %d\n", i);
                int r = read_file(fp, &io);
                Str got = r == 0 ? Str(io.buffer, io.size) : "<failed>";
                bool term = r == 0 && io.buffer[io.size] == 0;
                free(io.buffer);
                close_file(fp);
                PBT_CHECK(c, got == m[i] && term, "read", "read_file gives %s, the file holds %s", esc(got).c_str(), esc(m[i]).c_str());
                reads++;
                break;
            }
            case 5: { // by lines
                Str t = m[i];
                if (t.find('\0') != Str::npos) break;
                std::vector<Str> want;
                while (!t.empty()) { size_t p = t.find('\n'); want.push_back(t.substr(0, p)); t = p == Str::npos ? "" : t.substr(p + 1); }
                seen.clear();
                c.note("read lines of file %d\n", i);
                int r = read_text_file(f, on_line);
                PBT_CHECK(c, r == 0 && seen == want, "lines", "read_text_file returns %d and gives %zu lines, expected %zu of %s", r, seen.size(), want.size(), esc(m[i]).c_str());
                reads++;
                break;
            }
            case 6: {
                size_t n = c.flip() ? m[i].size() : c.below(m[i].size() + 3);
                Buf b(n);
                c.note("read %zu of %zu bytes of file %d\n", n, m[i].size(), i);
                int r = read_binary_file(f, b.p, n);
                if (n <= m[i].size())
                    PBT_CHECK(c, r == 0 && Str(b.p, n) == m[i].substr(0, n), "read-binary", "read_binary_file(%zu) returns %d and %s, the file holds %s", n, r, esc(Str(b.p, n)).c_str(), esc(m[i]).c_str());
                else
                    PBT_CHECK(c, r != 0, "read-binary-short", "read_binary_file(%zu) of %zu bytes reports success", n, m[i].size());
                reads++;
                break;
            }
            case 7: { // overwrite a part in place
                size_t at = c.below(m[i].size() + 1);
                Str s = blob(c);
                if (c.flip() && s.size() > m[i].size() - at) s.resize(m[i].size() - at);
                Buf b(s);
                c.note("update %zu bytes at %zu of %zu in file %d\n", s.size(), at, m[i].size(), i);
                int r = update_binary_file(f, b.p, s.size(), at, s.size());
                if (m[i].size() < at + s.size()) m[i].resize(at + s.size());
                m[i].replace(at, s.size(), s);
                PBT_CHECK(c, r == 0, "update", "update_binary_file returns %d", r);
                writes++;
                break;
            }
            case 8: case 9: { // fgets-like
                Str t = m[i];
                if (t.find('\0') != Str::npos) break;
                FILE *fp;
                bool in = op == 9;
                if (in) { fp = freopen(f, "r", stdin); if (!fp) break; }
                else fp = open_file(f, (char *)IO_MODE_READ);
                c.note("read single lines of file %d%s\n", i, in ? " as input" : "");
                size_t pos = 0;
                for (int k = 0; k < 8; k++) {
                    size_t size = 2 + c.below(c.flip() ? 300 : 6);
                    size_t e = t.find('\n', pos);
                    Str want; bool eof = pos >= t.size(); size_t next;
                    size_t room = size - 1, left = t.size() - pos, len = e == Str::npos ? left : e - pos;
                    if (len + (e != Str::npos) <= room) { want = t.substr(eof ? 0 : pos, eof ? 0 : len); next = pos + len + (e != Str::npos); }
                    else { want = t.substr(pos, room); next = pos + room; if (room > len) { want = t.substr(pos, len); } }
                    Buf b(size);
                    int r = in ? get_input(b.p, size) : read_line(fp, b.p, size);
                    PBT_CHECK(c, (r != 0) == eof, "line-eof", "%s at %zu of %zu bytes returns %d", in ? "get_input" : "read_line", pos, t.size(), r);
                    if (eof) break;
                    PBT_CHECK(c, memchr(b.p, 0, size) && want == b.p, "line", "%s gives %s, expected %s", in ? "get_input" : "read_line", esc(b.p).c_str(), esc(want).c_str());
                    pos = next;
                }
                if (!in) close_file(fp);
                reads++;
                break;
            }
            case 11: { // what cannot be read
                c.note("read a directory\n");
                bool text = c.flip();
                char b[8];
                seen.clear();
                int r = text ? read_text_file(DIR_, on_line) : read_binary_file(DIR_, b, sizeof b);
                PBT_CHECK(c, r != 0 && seen.empty(), "read-error", "reading a directory by %s returns %d", text ? "read_text_file" : "read_binary_file", r);
                break;
            }
            case 10: unlink(f); m.erase(i); c.note("remove file %d\n", i); break;
        }
        free(f);
        PBT_CHECK(c, open_fds() == fds, "left-open", "%d files are open after the operation, %d before it", open_fds(), fds);
        for (int k = 0; k < 3; k++) {
            Str got = slurp(path[k]), want = m.count(k) ? m[k] : Str("<missing>");
            PBT_CHECK(c, got == want, "content", "file %d holds %s, expected %s", k, esc(got).c_str(), esc(want).c_str());
        }
    });
    if (writes > 1 && reads > 0) c.nontrivial();
    for (auto &p : path) unlink(p.c_str());
}
int
main(int argc, char **argv)
{
    if (!mkdtemp(DIR_)) return 2;
    pbt::Property p{"C28", "each case applies a generated history of writes, appends, in-place updates, reads and removals to three scratch files; non-trivial: at least two writes and a read", 6000, 400000, 100, 30, run};
    int r = pbt::run_main(argc, argv, p);
    if (DIR *d = opendir(DIR_)) {
        while (dirent *e = readdir(d)) if (e->d_name[0] != '.') unlink((Str(DIR_) + "/" + e->d_name).c_str());
        closedir(d);
    }
    rmdir(DIR_);
    return r;
}
