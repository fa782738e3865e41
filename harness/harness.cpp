#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "harness.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <ftw.h>
#include <malloc.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <unistd.h>
#include <exception>

static int g_errfd = -1;
static bool g_poll = false;
static off_t g_erroff = 0;
static std::string g_scratch;
static const size_t CAP = 2u << 20;

std::string json_str(const std::string& v) {
    std::string o = "\"";
    char b[8];
    for (unsigned char c : v) {
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    return o + "\"";
}
std::string json_list(const std::vector<std::string>& v) {
    std::string o = "[";
    for (size_t i = 0; i < v.size(); ++i) o += (i ? "," : "") + json_str(v[i]);
    return o + "]";
}
Ev::Ev(const char* name) { j_ = std::string("{\"e\":\"") + name + "\",\"t\":" + std::to_string(vs::self()); }
Ev::~Ev() {
    vs::quiet(1);
    if (g_poll) poll_reports();
    vs::log_raw(j_ + "}");
    vs::quiet(-1);
}
Ev& Ev::s(const char* k, const std::string& v) { j_ += std::string(",\"") + k + "\":" + json_str(v); return *this; }
Ev& Ev::i(const char* k, long v) { j_ += std::string(",\"") + k + "\":" + std::to_string(v); return *this; }
Ev& Ev::b(const char* k, bool v) { j_ += std::string(",\"") + k + "\":" + (v ? "true" : "false"); return *this; }
Ev& Ev::raw(const char* k, const std::string& v) { j_ += std::string(",\"") + k + "\":" + v; return *this; }

void capture_stderr(bool poll) {
    g_errfd = memfd_create("err", 0);
    fflush(stderr);
    dup2(g_errfd, 2);
    g_poll = poll;
}
std::string stderr_new() {
    if (g_errfd < 0) return "";
    struct stat st;
    fstat(g_errfd, &st);
    if (st.st_size <= g_erroff) return "";
    std::string s((size_t)(st.st_size - g_erroff), 0);
    ssize_t n = pread(g_errfd, &s[0], s.size(), g_erroff);
    if (n < 0) n = 0;
    s.resize((size_t)n);
    g_erroff += n;
    return s;
}
void poll_reports() {
    std::string s = stderr_new();
    if (s.empty()) return;
    bool p = g_poll; g_poll = false;
    size_t a = 0;
    const std::string head = "[*** EXCEPTION #";
    while (a < s.size()) {          // one event per report (a report may have several lines)
        size_t e = s.find("\n" + head, a);
        std::string l = s.substr(a, e == std::string::npos ? std::string::npos : e - a);
        if (e == std::string::npos && !l.empty() && l.back() == '\n') l.pop_back();
        long num = -1; std::string txt = l;
        if (l.compare(0, head.size(), head) == 0) {
            num = atol(l.c_str() + head.size());
            size_t q = l.find("] [");
            size_t z = q == std::string::npos ? q : l.find("] ", q + 2);
            if (z != std::string::npos) txt = l.substr(z + 2);
        }
        Ev("report").i("n", num).s("txt", txt);
        if (e == std::string::npos) break;
        a = e + 1;
    }
    g_poll = p;
}
void settle_us(long us) {
    usleep((useconds_t)us);
    for (int n = 0; n < 1000 && !vs::others_blocked(); ++n) usleep(1);
}
const std::string& scratch() { return g_scratch; }

static std::string unpct(const std::string& s) {
    std::string o;
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] == '%' && i + 2 < s.size()) { o += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; }
        else o += s[i];
    }
    return o;
}
static std::vector<std::string> split(const std::string& l) {
    std::vector<std::string> r; size_t a = 0;
    while (a <= l.size()) {
        size_t b = l.find(' ', a);
        if (b == std::string::npos) b = l.size();
        r.push_back(unpct(l.substr(a, b - a)));
        a = b + 1;
    }
    return r;
}
static int rm_cb(const char* p, const struct stat*, int, struct FTW*) { return remove(p); }
static void rm_tree(const std::string& d) {
    if (d.compare(0, 8, "/tmp/vh.") != 0 && d.compare(0, 12, "/dev/shm/vh.") != 0) return;   // only our own directories
    nftw(d.c_str(), rm_cb, 16, FTW_DEPTH | FTW_PHYS);
}
static void on_term() {
    vs::log_raw("{\"e\":\"terminate\",\"t\":" + std::to_string(vs::self()) + "}");
    vs::die(4);
}
static void on_sig(int s) {
    vs::log_raw("{\"e\":\"crash\",\"sig\":" + std::to_string(s) + "}");
    vs::die(5);
}

int harness_main(int argc, char** argv, RunFn run, PostFn post) {
    // driver SCENARIOS OUT WORKERS
    if (argc < 4) { fprintf(stderr, "usage: driver scenarios out workers\n"); return 2; }
    std::vector<Scenario> all;
    {
        std::ifstream in(argv[1]);
        std::string l; Scenario cur;
        while (std::getline(in, l)) {
            if (l.empty()) continue;
            if (l[0] == 'S') { cur = Scenario(); cur.id = l.substr(2); }
            else if (l[0] == 'C') { auto v = split(l.substr(2)); cur.cfg[v[0]] = v.size() > 1 ? v[1] : ""; }
            else if (l[0] == 'O') cur.ops.push_back(split(l.substr(2)));
            else if (l[0] == 'E') all.push_back(cur);
        }
    }
    int W = atoi(argv[3]);
    if (W < 1) W = 1;
    std::vector<pid_t> kids;
    for (int w = 0; w < W; ++w) {
        pid_t k = fork();
        if (k) { kids.push_back(k); continue; }
        std::string base = access("/dev/shm", W_OK) == 0 ? "/dev/shm/vh." : "/tmp/vh.";
        char tmpl[64]; snprintf(tmpl, sizeof tmpl, "%sXXXXXX", base.c_str());
        char* root = mkdtemp(tmpl);
        if (!root) _exit(2);
        std::string rootd = root;
        char* mem = (char*)mmap(nullptr, CAP, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        FILE* out = fopen((std::string(argv[2]) + "." + std::to_string(w)).c_str(), "w");
        if (!out) _exit(2);
        int hangs = 0;
        for (size_t i = (size_t)w; i < all.size(); i += (size_t)W) {
            const Scenario& sc = all[i];
            if (hangs >= 2) {           // enough: the rest would take too long
                fprintf(out, "{\"id\":%s,\"rc\":-1,\"skip\":true,\"ev\":[]}\n", json_str(sc.id).c_str());
                continue;
            }
            std::string dir = rootd + "/" + std::to_string(i);
            mkdir(dir.c_str(), 0755);
            vs::log_attach(mem, CAP);
            fflush(nullptr);
            pid_t c = fork();
            if (c == 0) {
                alarm(0);
                g_scratch = dir;
                if (chdir(dir.c_str()) != 0) _exit(2);
                mallopt(M_PERTURB, 0x5a);
                std::set_terminate(on_term);
                struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_sig; sa.sa_flags = SA_ONSTACK;
                static char alt[1 << 16]; stack_t ss; ss.ss_sp = alt; ss.ss_size = sizeof alt; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
                for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(s, &sa, nullptr);
                vs::Config vc;
                vc.seed = (uint64_t)sc.num("seed", 1); vc.strategy = (int)sc.num("strategy", 0);
                vc.mem_mean = (int)sc.num("mem", 200); vc.sync_pct = (int)sc.num("sync", 40);
                vc.change_points = (int)sc.num("cp", 3); vc.jump_permille = (int)sc.num("jump", 0);
                vc.hunt_pct = (int)sc.num("hunt", 10);
                vc.spurious_permille = (int)sc.num("spurious", 0);
                vc.tick_ns = (uint64_t)sc.num("tick", 1000); vc.epoch_s = (uint64_t)sc.num("epoch", 1700000000);
                vs::begin(vc);
                try { run(sc); }
                catch (const std::exception& e) { Ev("escaped").s("what", e.what()); vs::die(6); }
                Ev("end");
                vs::die(0);
            }
            int st = 0, waited = 0; bool killed = false;
            while (waitpid(c, &st, WNOHANG) == 0) {
                usleep(waited < 2000 ? 100 : 2000); waited += waited < 2000 ? 1 : 20;
                if (waited > 200000 + 2000) { ++hangs; kill(c, SIGKILL); waitpid(c, &st, 0); killed = true; break; }
            }
            std::string ev(mem);
            if (killed) ev += std::string(ev.empty() ? "" : ",") + "{\"e\":\"hang\"}";
            else if (WIFSIGNALED(st) && WTERMSIG(st) != SIGKILL) ev += std::string(ev.empty() ? "" : ",") + "{\"e\":\"crash\",\"sig\":" + std::to_string(WTERMSIG(st)) + "}";
            if (post) { std::string m = post(sc, dir); if (!m.empty()) ev += (ev.empty() ? "" : ",") + m; }
            fprintf(out, "{\"id\":%s,\"rc\":%d,\"ev\":[%s]}\n", json_str(sc.id).c_str(), WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st), ev.c_str());
            rm_tree(dir);
        }
        fclose(out);
        rm_tree(rootd);
        _exit(0);
    }
    int bad = 0;
    for (pid_t k : kids) { int st; waitpid(k, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) bad = 1; }
    std::string cat;
    FILE* o = fopen(argv[2], "w");
    if (!o) return 2;
    for (int w = 0; w < W; ++w) {
        std::string n = std::string(argv[2]) + "." + std::to_string(w);
        std::ifstream in(n);
        std::string l;
        while (std::getline(in, l)) fprintf(o, "%s\n", l.c_str());
        unlink(n.c_str());
    }
    fclose(o);
    return bad;
}
