// Driver for the file sinks: what they do to a directory tree, with calls of the C library made to fail.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "harness.h"
#include "fmt_common.h"
#include "learnlog.h"
#include "sinks/basic_file_sink.h"
#include "sinks/rolling_file_sink.h"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <sstream>
#include <sys/stat.h>
#include <unistd.h>
using namespace learnlog;

// ---------------------------------------------------------------- failing calls of the C library
static bool g_on = false;            // inside a call of the library
static std::string g_fn;             // which function fails
static int g_skip, g_left, g_errno, g_cut, g_fired, g_die;
static bool fails(const char* fn) {
    if (!g_on) return false;
    if (g_die > 0 && --g_die == 0) vs::die(0);      // the process ends here
    if (g_fn != fn || g_left == 0) return false;
    if (g_skip > 0) { --g_skip; return false; }
    --g_left; ++g_fired; errno = g_errno;
    return true;
}
#define REAL(name, ...) using T_ = __VA_ARGS__; static T_ r = (T_)dlsym(RTLD_NEXT, name)
extern "C" {
static int open_mode(const char* n, const char* p, int f, mode_t m) { REAL("open", int (*)(const char*, int, ...)); (void)n; return r(p, f, m); }
int open(const char* p, int f, ...) { mode_t m = 0; if (f & O_CREAT) { va_list a; va_start(a, f); m = (mode_t)va_arg(a, int); va_end(a); } if (fails("open")) return -1; return open_mode("open", p, f, m); }
int open64(const char* p, int f, ...) { mode_t m = 0; if (f & O_CREAT) { va_list a; va_start(a, f); m = (mode_t)va_arg(a, int); va_end(a); } if (fails("open")) return -1; return open_mode("open", p, f | O_LARGEFILE, m); }
FILE* fopen(const char* p, const char* m) { if (fails("open")) return nullptr; REAL("fopen", FILE* (*)(const char*, const char*)); return r(p, m); }
FILE* fopen64(const char* p, const char* m) { if (fails("open")) return nullptr; REAL("fopen64", FILE* (*)(const char*, const char*)); return r(p, m); }
FILE* fdopen(int fd, const char* m) { if (fails("fdopen")) return nullptr; REAL("fdopen", FILE* (*)(int, const char*)); return r(fd, m); }
int mkdir(const char* p, mode_t m) { if (fails("mkdir")) return -1; REAL("mkdir", int (*)(const char*, mode_t)); return r(p, m); }
int fflush(FILE* f) { if (fails("fflush")) return EOF; REAL("fflush", int (*)(FILE*)); return r(f); }
int fclose(FILE* f) { bool x = fails("fclose"); REAL("fclose", int (*)(FILE*)); int e = errno; int v = r(f); if (x) { errno = e; return EOF; } return v; }
size_t fwrite(const void* p, size_t s, size_t n, FILE* f) {
    REAL("fwrite", size_t (*)(const void*, size_t, size_t, FILE*));
    if (fails("fwrite")) { size_t k = std::min((size_t)g_cut, n ? n - 1 : 0); int e = errno; if (k) r(p, s, k, f); errno = e; return k; }
    return r(p, s, n, f);
}
}

// -------------------------------------------------------------------------- looking at the tree
static std::string slurp(const std::string& p) { std::ifstream in(p, std::ios::binary); std::stringstream s; s << in.rdbuf(); return s.str(); }
static void walk(const std::string& root, const std::string& rel, std::vector<std::string>& dirs, std::string& files) {
    DIR* d = opendir((root + "/" + rel).c_str());
    if (!d) return;
    std::vector<std::string> names;
    while (dirent* e = readdir(d)) { std::string n = e->d_name; if (n != "." && n != "..") names.push_back(n); }
    closedir(d);
    for (auto& n : names) {
        std::string r = rel.empty() ? n : rel + "/" + n, p = root + "/" + r;
        struct stat st; if (lstat(p.c_str(), &st)) continue;
        if (S_ISDIR(st.st_mode)) { dirs.push_back(r); walk(root, r, dirs, files); }
        else files += (files.empty() ? "" : ",") + json_str(r) + ":" + json_str(slurp(p));
    }
}
static std::string tree(const std::string& root) {
    std::vector<std::string> dirs; std::string files;
    walk(root, "", dirs, files);
    return "{\"dirs\":" + json_list(dirs) + ",\"files\":{" + files + "}}";
}
static int open_fds() {              // descriptors on files of the tree
    int n = 0; std::string pre = scratch() + "/";
    DIR* d = opendir("/proc/self/fd");
    while (dirent* e = readdir(d)) {
        char b[4096]; ssize_t k = readlink((std::string("/proc/self/fd/") + e->d_name).c_str(), b, sizeof b - 1);
        if (k > 0) { b[k] = 0; if (std::string(b).compare(0, pre.size(), pre) == 0) ++n; }
    }
    closedir(d);
    return n;
}
// only what lies in the scratch directory, and the always full device
static std::string real_path(const std::string& p) {
    if (p == "@full") return "/dev/full";
    if (p.compare(0, 2, "@/") == 0) return scratch() + p.substr(1);
    if (!p.empty() && p[0] == '/') vs::die(7);
    return p;
}
static bool regular(const std::string& p) { struct stat st; return lstat(p.c_str(), &st) == 0 && S_ISREG(st.st_mode); }
struct H { sink_shr_ptr s; logger_shr_ptr l; std::string path; };
static std::map<std::string, H> HS;
static std::string key_of(const std::string& h) { return "logger " + h; }
static std::vector<std::string> reports() {
    std::vector<std::string> r; std::string s = stderr_new(); const std::string head = "[*** EXCEPTION #";
    size_t a = s.find(head);
    while (a != std::string::npos) { size_t b = s.find(head, a + 1); r.push_back(s.substr(a, b == std::string::npos ? b : b - a)); a = b; }
    if (r.empty() && !s.empty()) r.push_back(s);
    return r;
}

static void run(const Scenario& sc) {
    capture_stderr(false);
    bool always = sc.num("see", 1) != 0;
    learnlog::get_logger("x");
    for (auto& o : sc.ops) {
        const std::string& op = o[0];
        if (op == "fault") { g_fn = o[1]; g_left = std::stoi(o[2]); g_skip = std::stoi(o[3]); g_cut = std::stoi(o[4]); g_errno = std::stoi(o[5]); g_fired = 0; continue; }
        if (op == "die") { g_die = std::stoi(o[1]); continue; }
        // (a handle whose opening failed is not used; neither is one opened already)
        if ((op == "log" || op == "fmt" || op == "flush" || op == "drop") && !HS.count(o[1])) { g_fn = ""; g_left = g_die = 0; continue; }
        std::string j;
        std::function<void()> act = [] {};
        auto msg = std::make_shared<base::log_msg>();
        if (op == "open") {          // h kind via path trunc max num mt
            const std::string &h = o[1], &kind = o[2], &via = o[3]; std::string path = real_path(o[4]);
            bool trunc = o[5] == "1", mt = o[8] == "1"; size_t mx = std::stoul(o[6]), num = std::stoul(o[7]);
            j = "\"h\":" + json_str(h) + ",\"kind\":" + json_str(kind) + ",\"path\":" + json_str(o[4]) + ",\"trunc\":" + (trunc ? "true" : "false") + ",\"max\":" + std::to_string(std::min<size_t>(mx, 2000000000)) + ",\"num\":" + std::to_string(std::min<size_t>(num, 2000000000));
            act = [=] {
                H x; x.path = o[4];
                if (via == "sink") {
                    if (kind == "file") { if (mt) x.s = std::make_shared<sinks::basic_file_sink_mt>(path, trunc); else x.s = std::make_shared<sinks::basic_file_sink_st>(path, trunc); }
                    else { if (mt) x.s = std::make_shared<sinks::rolling_file_sink_mt>(path, mx, num); else x.s = std::make_shared<sinks::rolling_file_sink_st>(path, mx, num); }
                } else {
                    if (kind == "file") { if (mt) x.l = learnlog::basic_file_logger_mt(key_of(h), path, trunc); else x.l = learnlog::basic_file_logger_st(key_of(h), path, trunc); }
                    else { if (mt) x.l = learnlog::rolling_file_logger_mt(key_of(h), path, mx, num); else x.l = learnlog::rolling_file_logger_st(key_of(h), path, mx, num); }
                    x.l->set_log_level(level::trace);
                }
                HS[h] = x;
            };
        }
        else if (op == "log") {      // h level text
            H& x = HS[o[1]];
            std::string nm = x.l ? x.l->name() : "direct";
            auto keep = std::make_shared<std::pair<std::string, std::string>>(nm, o[3]);
            level::level_enum lv = (level::level_enum)std::stoi(o[2]);
            sys_clock::time_point now = sys_clock::now();
            *msg = base::log_msg(now, source_loc{}, lv, fmt_string_view(keep->second.data(), keep->second.size()), fmt_string_view(keep->first.data(), keep->first.size()));
            j = "\"h\":" + json_str(o[1]) + ",\"path\":" + json_str(x.path) + ",\"pid\":" + std::to_string(getpid()) + ",\"m\":" + msg_json(*msg);
            act = [=] { H& y = HS[o[1]]; if (y.l) y.l->log(now, source_loc{}, lv, fmt_string_view(keep->second.data(), keep->second.size())); else y.s->log(*msg); };
        }
        else if (op == "fmt") {      // h pattern eol
            j = "\"h\":" + json_str(o[1]) + ",\"pat\":" + json_str(o[2]) + ",\"eol\":" + json_str(o[3]);
            act = [=] { H& y = HS[o[1]];
                if (o[3] == "\n") { if (y.l) y.l->set_pattern(o[2]); else y.s->set_pattern(o[2]); }
                else { auto f = learnlog::make_unique<sinks::pattern_formatter>(o[2], o[3]); if (y.l) y.l->set_formatter(std::move(f)); else y.s->set_formatter(std::move(f)); } };
        }
        else if (op == "flush") { j = "\"h\":" + json_str(o[1]) + ",\"path\":" + json_str(HS[o[1]].path); act = [=] { H& y = HS[o[1]]; if (y.l) y.l->flush(); else y.s->flush(); }; }
        else if (op == "drop") { j = "\"h\":" + json_str(o[1]); act = [=] { H& y = HS[o[1]]; if (y.l) learnlog::remove_logger(key_of(o[1])); y.s.reset(); y.l.reset(); HS.erase(o[1]); }; }
        else {                       // what others do; canonical relative paths
            std::string p = o.size() > 1 ? o[1] : "", q = o.size() > 2 ? o[2] : ""; bool done = true;
            if (op == "mkdir") { j = "\"p\":" + json_str(p); done = ::mkdir(p.c_str(), 0755) == 0; }
            else if (op == "write") { j = "\"p\":" + json_str(p) + ",\"txt\":" + json_str(q); std::ofstream f(p, std::ios::binary | std::ios::app); done = f.good(); f << q; }
            else if (op == "make") { j = "\"p\":" + json_str(p) + ",\"txt\":" + json_str(q); struct stat st; done = lstat(p.c_str(), &st) != 0; if (done) { std::ofstream f(p, std::ios::binary); done = f.good(); f << q; } }
            else if (op == "rm") { j = "\"p\":" + json_str(p); done = regular(p) && ::unlink(p.c_str()) == 0; }
            else if (op == "mv") { j = "\"p\":" + json_str(p) + ",\"q\":" + json_str(q); done = regular(p) && ::rename(p.c_str(), q.c_str()) == 0; }
            else if (op == "kill") vs::die(0);
            else j = "\"p\":\"\"";
            j += std::string(",\"done\":") + (done ? "true" : "false");
        }
        std::string flt = "\"op\":" + json_str(op) + "," + j;
        if (g_die > 0) vs::log_raw("{\"e\":\"call\"," + flt + ",\"fault\":{\"fn\":\"\",\"fired\":0,\"cut\":0}}");
        std::vector<std::string> errs;
        g_on = true;
        try { act(); } catch (const std::exception& e) { g_on = false; errs.push_back(e.what()); }
        g_on = false; g_die = 0;
        for (auto& r : reports()) errs.push_back(r);
        bool see = always || op == "ls";
        vs::log_raw("{\"e\":\"op\"," + flt + ",\"fault\":{\"fn\":" + json_str(g_fn) + ",\"fired\":" + std::to_string(g_fired) + ",\"cut\":" + std::to_string(g_cut) + "},\"errs\":" + json_list(errs)
                    + ",\"fds\":" + std::to_string(open_fds()) + ",\"see\":" + (see ? "true" : "false") + ",\"fs\":" + (see ? tree(scratch()) : "{}") + "}");
        g_fn = ""; g_left = 0; g_fired = 0; g_skip = 0; g_cut = 0;
    }
}
static std::string post(const Scenario&, const std::string& dir) { return "{\"e\":\"left\",\"fs\":" + tree(dir) + "}"; }
int main(int c, char** v) { return harness_main(c, v, run, post); }
