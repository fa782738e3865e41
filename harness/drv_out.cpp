// Driver for what sinks put out (C17, C20): console sinks on pipes, pretended and real terminals, files,
// rolling files and streams; one thread at a time with the output looked at after every call, or several
// threads with the output looked at in the end.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "harness.h"
#include "fmt_common.h"
#include "learnlog.h"
#include "async_logger.h"
#include "sinks/basic_file_sink.h"
#include "sinks/rolling_file_sink.h"
#include "sinks/ostream_sink.h"
#include "sinks/std_sinks.h"
#include "sinks/std_color_sinks.h"
#include <algorithm>
#include <deque>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <sstream>
#include <streambuf>
#include <sys/mman.h>
#include <sys/stat.h>
#include <termios.h>
#include <thread>
#include <unistd.h>
using namespace learnlog;

// ------------------------------------------------------------- the streams
static int g_tty[3];                 // fd 1, 2 pretend to be terminals
static bool g_pts = false;           // points of preemption around the C library's output functions
#define REAL(name, ...) using T_ = __VA_ARGS__; static T_ r = (T_)dlsym(RTLD_NEXT, name)
static void pt() { if (g_pts) vs::point(); }
static bool g_par = false;
static std::vector<FILE*> CLOSED;
static void check_open(FILE* f) {
    if (!g_par || !f) return;
    vs::quiet(1);
    for (FILE* c : CLOSED) if (c == f) { vs::log_raw("{\"e\":\"crash\",\"sig\":\"use of a closed stream\"}"); vs::die(5); }
    vs::quiet(-1);
}
extern "C" {
int isatty(int fd) noexcept { REAL("isatty", int (*)(int)); if ((fd == 1 || fd == 2) && g_tty[fd]) return 1; return r(fd); }
size_t fwrite(const void* p, size_t s, size_t n, FILE* f) { REAL("fwrite", size_t (*)(const void*, size_t, size_t, FILE*)); pt(); check_open(f); size_t v = r(p, s, n, f); pt(); return v; }
int fflush(FILE* f) { REAL("fflush", int (*)(FILE*)); pt(); check_open(f); int v = r(f); pt(); return v; }
int fclose(FILE* f) {
    REAL("fclose", int (*)(FILE*));
    if (!g_par || !vs::active()) return r(f);
    pt(); check_open(f);
    // the object stays, so that a later use of it is noticed and not that of another stream
    int v = fflush_unlocked(f); vs::quiet(1); CLOSED.push_back(f); vs::quiet(-1); if (::close(fileno(f)) != 0) v = EOF;
    pt();
    return v;
}
}
struct Target { std::string kind; int fd = -1, master = -1; off_t off = 0; };
static Target OUT, ERR_;
static const char MARKER[] = "\x02-what-was-written-ends-here-\x02";
static void open_target(Target& t, const std::string& kind, int fd) {
    t.kind = kind;
    if (kind == "pty") {
        t.master = posix_openpt(O_RDWR | O_NOCTTY);
        if (t.master < 0 || grantpt(t.master) || unlockpt(t.master)) { t.kind = "tty"; }      // no terminals here: pretend
        else {
            t.fd = ::open(ptsname(t.master), O_RDWR | O_NOCTTY);
            if (t.fd < 0) t.kind = "tty";
            else { termios a; tcgetattr(t.fd, &a); cfmakeraw(&a); tcsetattr(t.fd, TCSANOW, &a); }
        }
    }
    if (t.kind != "pty") { t.fd = memfd_create("target", 0); g_tty[fd] = t.kind == "tty"; }
    dup2(t.fd, fd);
}
static std::string seen(Target& t) {     // what came since the last look
    std::string s;
    if (t.kind == "pty") {
        std::string m = MARKER;
        if (::write(t.fd, m.data(), m.size()) != (ssize_t)m.size()) vs::die(8);
        char b[4096];
        while (s.size() < m.size() || s.compare(s.size() - m.size(), m.size(), m) != 0) { ssize_t n = ::read(t.master, b, sizeof b); if (n <= 0) vs::die(8); s.append(b, (size_t)n); }
        s.resize(s.size() - m.size());
        return s;
    }
    struct stat st; fstat(t.fd, &st);
    s.resize((size_t)(st.st_size - t.off));
    if (!s.empty() && ::pread(t.fd, &s[0], s.size(), t.off) != (ssize_t)s.size()) vs::die(8);
    t.off = st.st_size;
    return s;
}
// a stream that takes its time
class slow_buf : public std::streambuf {
public:
    std::string s;
protected:
    int_type overflow(int_type c) override { if (c != traits_type::eof()) { pt(); s += (char)c; } return c; }
    std::streamsize xsputn(const char* p, std::streamsize n) override { for (std::streamsize k = 0; k < n; ++k) { if (k % 3 == 0) pt(); s += p[k]; } return n; }
    int sync() override { pt(); return 0; }
};

// ---------------------------------------------------------- sinks and loggers
struct Snk { sink_shr_ptr p; std::string kind; std::shared_ptr<slow_buf> buf; std::shared_ptr<std::ostream> os; };
static std::map<std::string, Snk> S;
static std::map<std::string, logger_shr_ptr> L;
static std::map<std::string, std::vector<std::string>> LS;
static std::vector<std::thread> thr;
static std::shared_ptr<base::thread_pool> pool;
static std::map<std::string, bool> ASY;
static std::vector<std::string> csv(const std::string& s) {
    std::vector<std::string> r; size_t a = 0;
    while (a < s.size()) { size_t b = s.find(',', a); if (b == std::string::npos) b = s.size(); r.push_back(s.substr(a, b - a)); a = b + 1; }
    return r;
}
template <typename Mt, typename St, typename... A> static sink_shr_ptr mk(bool mt, A&&... a) {
    if (mt) return std::make_shared<Mt>(std::forward<A>(a)...);
    return std::make_shared<St>(std::forward<A>(a)...);
}
static void make_sink(const std::vector<std::string>& o) {   // sink h kind mt [max num | force]
    Snk x; x.kind = o[3]; bool mt = o[4] == "1";
    if (x.kind == "out") x.p = mk<sinks::stdout_sink_mt, sinks::stdout_sink_st>(mt);
    else if (x.kind == "err") x.p = mk<sinks::stderr_sink_mt, sinks::stderr_sink_st>(mt);
    else if (x.kind == "cout") x.p = mk<sinks::stdout_color_sink_mt, sinks::stdout_color_sink_st>(mt);
    else if (x.kind == "cerr") x.p = mk<sinks::stderr_color_sink_mt, sinks::stderr_color_sink_st>(mt);
    else if (x.kind == "file") x.p = mk<sinks::basic_file_sink_mt, sinks::basic_file_sink_st>(mt, "file-" + o[2] + ".log");
    else if (x.kind == "roll") x.p = mk<sinks::rolling_file_sink_mt, sinks::rolling_file_sink_st>(mt, "roll-" + o[2] + "/x.log", std::stoul(o[5]), std::stoul(o[6]));
    else { x.buf = std::make_shared<slow_buf>(); x.os = std::make_shared<std::ostream>(x.buf.get()); x.p = mk<sinks::ostream_sink_mt, sinks::ostream_sink_st>(mt, *x.os, o[5] == "1"); }
    S[o[2]] = x;
}
static void make_logger(const std::vector<std::string>& o) {   // fac g kind mt : the factories
    std::string n = "logger " + o[2]; bool mt = o[4] == "1"; logger_shr_ptr l;
    if (o[3] == "out") l = mt ? learnlog::stdout_logger_mt(n) : learnlog::stdout_logger_st(n);
    else if (o[3] == "err") l = mt ? learnlog::stderr_logger_mt(n) : learnlog::stderr_logger_st(n);
    else if (o[3] == "cout") l = mt ? learnlog::stdout_color_logger_mt(n) : learnlog::stdout_color_logger_st(n);
    else if (o[3] == "cerr") l = mt ? learnlog::stderr_color_logger_mt(n) : learnlog::stderr_color_logger_st(n);
    else l = learnlog::get_default_logger();
    l->set_log_level(level::trace);
    L[o[2]] = l; LS[o[2]] = {o[2]}; S[o[2]] = Snk{l->sinks().at(0), o[3] == "default" ? "cout" : o[3], nullptr, nullptr};
}
static void step(const std::vector<std::string>& o) {
    const std::string &op = o[1], &h = o.size() > 2 ? o[2] : op;
    bool lg = L.count(h) != 0;
    std::string j = "\"op\":" + json_str(op) + ",\"hs\":" + json_list(lg ? LS[h] : std::vector<std::string>{h});
    sink_shr_ptr p = S.count(h) ? S[h].p : nullptr;
    j += std::string(",\"as\":") + (ASY.count(h) && op == "log" ? "true" : "false");
    std::string err;
    auto emit = [&](const char* e, const std::string& more) { vs::quiet(1); vs::log_raw(std::string("{\"e\":\"") + e + "\",\"t\":" + std::to_string(vs::self()) + "," + j + more + "}"); vs::quiet(-1); };
    if (op == "sink" || op == "fac" || op == "sinkt") {
        // (sinkt: made by another thread)
        if (op == "sink") make_sink(o); else if (op == "fac") make_logger(o); else std::thread([&] { make_sink(o); }).join();
        j += ",\"kind\":" + json_str(S[h].kind) + ",\"max\":" + (o[3] == "roll" ? o[5] : "0") + ",\"pat\":\"%+\"";
    }
    else if (op == "lgr") {                       // lgr g h1,h2
        std::vector<sink_shr_ptr> v; for (auto& s : csv(o[3])) v.push_back(S[s].p);
        L[h] = std::make_shared<logger>("logger " + h, v.begin(), v.end()); L[h]->set_log_level(level::trace); LS[h] = csv(o[3]);
    }
    else if (op == "alg") {                       // alg g h1,h2 : an asynchronous logger
        std::vector<sink_shr_ptr> v; for (auto& s : csv(o[3])) v.push_back(S[s].p);
        L[h] = std::make_shared<async_logger>("logger " + h, v.begin(), v.end(), pool); L[h]->set_log_level(level::trace); LS[h] = csv(o[3]); ASY[h] = true;
    }
    else if (op == "log") {                       // log g|h level text
        auto lv = (level::level_enum)std::stoi(o[3]);
        std::string name = lg ? L[h]->name() : "direct";
        sys_clock::time_point now = sys_clock::now();
        base::log_msg m(now, source_loc{}, lv, fmt_string_view(o[4].data(), o[4].size()), fmt_string_view(name.data(), name.size()));
        j += ",\"lv\":" + std::to_string((int)lv) + ",\"pid\":" + std::to_string(getpid()) + ",\"m\":" + msg_json(m);
        if (g_par) emit("call", "");
        try { if (lg) L[h]->log(now, source_loc{}, lv, fmt_string_view(o[4].data(), o[4].size())); else p->log(m); } catch (const std::exception& e) { err = e.what(); }
    }
    else if (op == "fmt") {                       // fmt g|h pattern eol
        j += ",\"pat\":" + json_str(o[3]) + ",\"eol\":" + json_str(o[4]) + ",\"now\":" + split_time(sys_clock::now());
        if (g_par) emit("call", "");
        try {
            if (o[4] == "\n") { if (lg) L[h]->set_pattern(o[3]); else p->set_pattern(o[3]); }
            else { auto f = learnlog::make_unique<sinks::pattern_formatter>(o[3], o[4]); if (lg) L[h]->set_formatter(std::move(f)); else p->set_formatter(std::move(f)); }
        } catch (const std::exception& e) { err = e.what(); }
    }
    else if (op == "flush") {
        if (g_par) emit("call", "");
        try { if (lg) L[h]->flush(); else p->flush(); } catch (const std::exception& e) { err = e.what(); }
    }
    else if (op == "color") {                     // color h level code
        j += ",\"lv\":" + o[3] + ",\"code\":" + json_str(o[4]);
        auto lv = (level::level_enum)std::stoi(o[3]);
        if (g_par) emit("call", "");
        try {
            if (auto a = dynamic_cast<sinks::ansicolor_sink<base::static_mutex>*>(p.get())) a->set_level_color(lv, o[4]);
            else if (auto b = dynamic_cast<sinks::ansicolor_sink<base::static_nullmutex>*>(p.get())) b->set_level_color(lv, o[4]);
        } catch (const std::exception& e) { err = e.what(); }
    }
    j += ",\"err\":" + json_str(err);
    if (g_par) emit("ret", "");
    else emit("op", ",\"out\":" + json_str(seen(OUT)) + ",\"er\":" + json_str(seen(ERR_)));
}
static std::string slurp(const std::string& p) { std::ifstream in(p, std::ios::binary); std::stringstream s; s << in.rdbuf(); return s.str(); }
static std::string results() {
    std::string j;
    for (auto& kv : S) {
        const std::string& k = kv.second.kind; std::vector<std::string> v;
        if (k == "file") v.push_back(slurp("file-" + kv.first + ".log"));
        else if (k == "os") v.push_back(kv.second.buf->s);
        else if (k == "roll") {
            std::vector<std::string> names; DIR* d = opendir(("roll-" + kv.first).c_str());
            while (dirent* e = readdir(d)) if (e->d_name[0] != '.') names.push_back(e->d_name);
            closedir(d); std::sort(names.begin(), names.end());
            for (auto& n : names) v.push_back(slurp("roll-" + kv.first + "/" + n));
        }
        else continue;
        j += (j.empty() ? "" : ",") + json_str(kv.first) + ":" + json_list(v);
    }
    return "{" + j + "}";
}
static void run(const Scenario& sc) {
    set_zone(sc.num("off"));
    if (sc.get("term", "-") == "-") unsetenv("TERM"); else setenv("TERM", sc.get("term").c_str(), 1);
    if (sc.get("cterm", "-") == "-") unsetenv("COLORTERM"); else setenv("COLORTERM", sc.get("cterm").c_str(), 1);
    bool same = sc.num("same") != 0;
    open_target(OUT, sc.get("out", "pipe"), 1);
    if (same) { dup2(OUT.fd, 2); g_tty[2] = g_tty[1]; ERR_.kind = "none"; } else open_target(ERR_, sc.get("err", "pipe"), 2);
    if (sc.num("lb")) setvbuf(stdout, nullptr, _IOLBF, 4096);
    vs::log_raw("{\"e\":\"env\",\"esc\":\"\\u001b\",\"term\":" + json_str(sc.get("term", "-")) + ",\"cterm\":" + json_str(sc.get("cterm", "-")) + ",\"out\":" + (isatty(1) ? "true" : "false") + ",\"err\":" + (isatty(2) ? "true" : "false") + ",\"same\":" + (same ? "true" : "false") + ",\"fifo\":" + (sc.num("workers", 1) == 1 ? "true" : "false") + "}");
    bool par = sc.num("par") != 0;
    std::string pk = sc.get("pool"); size_t workers = (size_t)sc.num("workers", 1);
    if (pk == "lock") pool = std::make_shared<base::lock_thread_pool>(256, workers);
    else if (pk == "free") pool = std::make_shared<base::lockfree_thread_pool>(256, workers);
    else if (pk == "conc") pool = std::make_shared<base::lockfree_concurrent_thread_pool>(256, workers);
    for (auto& o : sc.ops) {
        if (o[0] != "0") continue;
        if (o[1] == "start") {
            g_par = g_pts = true;
            for (int k = 1; k <= std::stoi(o[2]); ++k) thr.emplace_back([&sc, k] { for (auto& q : sc.ops) if (q[0] == std::to_string(k)) step(q); });
        } else if (o[1] == "join") { for (auto& t : thr) t.join(); thr.clear(); }
        else if (par) { g_par = true; step(o); g_par = true; }
        else step(o);
    }
    if (par) {
        L.clear(); pool.reset();
        g_pts = false;
        learnlog::set_default_logger(nullptr); learnlog::remove_all();
        for (auto& kv : S) kv.second.p.reset();
        fflush(nullptr);
        std::string out = seen(OUT), er = same ? "" : seen(ERR_);
        vs::log_raw("{\"e\":\"left\",\"out\":" + json_str(out) + ",\"er\":" + json_str(er) + ",\"files\":" + results() + "}");
    }
}
int main(int c, char** v) { return harness_main(c, v, run); }
