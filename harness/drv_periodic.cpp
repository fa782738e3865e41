// Driver for periodic tasks and periodic flushing. Times are virtual, in the scenario's unit.
#include "harness.h"
#include "learnlog.h"
#include "base/periodic_function.h"
#include "sinks/sink.h"
#include <atomic>
#include <memory>
#include <mutex>
#include <thread>
using namespace learnlog;
static uint64_t g_unit = 1000000;
static long at() { return (long)(vs::now_ns() / g_unit); }
static void pass(long n) { if (n > 0) std::this_thread::sleep_for(std::chrono::nanoseconds((uint64_t)n * g_unit)); }
static std::vector<long> nums(const std::string& s) { std::vector<long> r; size_t a = 0; while (a < s.size()) { size_t b = s.find(',', a); if (b == std::string::npos) b = s.size(); r.push_back(std::stol(s.substr(a, b - a))); a = b + 1; } return r; }
// an interval of n units, in one of several duration types that can hold it exactly
template <typename F> static void with_interval(long n, int kind, F f) {
    long long ns = (long long)n * (long long)g_unit;
    using namespace std::chrono;
    switch (kind) {                 // so long that it never comes
        case 10: f(std::chrono::hours::max()); return;
        case 11: f(std::chrono::seconds::max()); return;
        case 12: f(milliseconds::max()); return;
        case 13: f(nanoseconds::max()); return;
        case 14: f(std::chrono::duration<double>::max()); return;
        case 15: f(std::chrono::minutes(500000000)); return;
        case 16: f(std::chrono::hours(24 * 365 * 90)); return;
    }
    if (kind == 1 && ns % 1000 == 0) f(microseconds(ns / 1000));
    else if (kind == 2 && ns % 1000000 == 0) f(milliseconds(ns / 1000000));
    else if (kind == 3 && ns % 1000000000 == 0) f(std::chrono::seconds(ns / 1000000000));
    else if (kind == 4 && ns % 60000000000ll == 0) f(std::chrono::minutes(ns / 60000000000ll));
    else if (kind == 5 && ns % 500000000ll == 0) f(std::chrono::duration<double>((double)ns / 1e9));
    else f(nanoseconds(ns));
}
class slow_sink : public sinks::sink {
public:
    std::string name; long dur = 0; bool bad = false;
    void log(const base::log_msg&) override {}
    void flush() override {
        Ev("sf").s("s", name).i("at", at());
        pass(dur);
        Ev("sfd").s("s", name).i("at", at());
        if (bad) throw std::runtime_error("flush of " + name);
    }
    void set_pattern(const std::string&) override {}
    void set_formatter(formatter_uni_ptr) override {}
};
static std::map<std::string, std::unique_ptr<base::periodic_function>> P;
static std::map<std::string, logger_shr_ptr> L;
static std::vector<std::thread> thr;
struct make_periodic { std::string p; std::function<void()> f; template <typename D> void operator()(D iv) { P[p].reset(new base::periodic_function(f, iv)); } };
struct every { template <typename D> void operator()(D iv) { learnlog::flush_every(iv); } };
static void step(const std::vector<std::string>& o) {
    const std::string& op = o[1];
    if (op == "sleep") { pass(std::stol(o[2])); return; }
    if (op == "yield") { std::this_thread::yield(); return; }
    if (op == "clock") { vs::clock_step(std::stoll(o[2]) * 1000000ll); return; }      // the system clock is set, by so many ms
    std::string p = o.size() > 2 ? o[2] : "";
    if (op == "new") {                 // p interval kind durations
        std::vector<long> d = nums(o[5]);
        auto n = std::make_shared<size_t>(0);
        std::function<void()> f = [p, d, n] {
            Ev("run").s("p", p).i("at", at());
            pass(d[(*n)++ % d.size()]);
            vs::point();
            Ev("done").s("p", p).i("at", at());
        };
        Ev("call").s("op", op).s("p", p).i("iv", std::stol(o[3])).i("at", at());
        with_interval(std::stol(o[3]), std::stoi(o[4]), make_periodic{p, f});
    } else if (op == "del") {
        Ev("call").s("op", op).s("p", p).i("iv", 0).i("at", at());
        P[p].reset();
    } else if (op == "every") {        // interval kind
        Ev("call").s("op", op).s("p", "").i("iv", std::stol(o[2])).i("at", at());
        with_interval(std::stol(o[2]), std::stoi(o[3]), every());
    } else if (op == "close") { Ev("call").s("op", op).s("p", "").i("iv", 0).i("at", at()); learnlog::close(); }
    else if (op == "exit") {           // as close: what the program left is closed when it ends
        Ev("call").s("op", "close").s("p", "").i("iv", 0).i("at", at());
        exit(0);
    }
    else if (op == "logger") {         // h async sinks durations bad
        std::vector<sink_shr_ptr> v; std::vector<long> d = nums(o[5]); std::vector<std::string> names;
        for (size_t k = 0; k < d.size(); ++k) { auto s = std::make_shared<slow_sink>(); s->name = p + "_" + std::to_string(k); s->dur = d[k]; s->bad = o[6] == "1" && k == 0; names.push_back(s->name); v.push_back(s); }
        (void)o[4];
        if (o[3] == "1") L[p] = std::make_shared<async_logger>(p, v.begin(), v.end(), learnlog::get_thread_pool());
        else L[p] = std::make_shared<logger>(p, v.begin(), v.end());
        Ev("logger").s("p", p).raw("ss", json_list(names)).i("at", at());
        return;
    } else if (op == "pool") { learnlog::initialize_thread_pool<base::lock_thread_pool>(8, 1); return; }
    else if (op == "reg") { Ev("call").s("op", op).s("p", p).i("iv", 0).i("at", at()); learnlog::register_logger(L[p]); }
    else if (op == "rem") { Ev("call").s("op", op).s("p", p).i("iv", 0).i("at", at()); learnlog::remove_logger(p); }
    else if (op == "remall") { Ev("call").s("op", op).s("p", p).i("iv", 0).i("at", at()); learnlog::remove_all(); }
    else { fprintf(stderr, "unknown op %s\n", op.c_str()); vs::die(9); }
    Ev("ret").i("at", at());
}
static void run(const Scenario& sc) {
    capture_stderr(false);
    g_unit = (uint64_t)sc.num("unit", 1000000);
    std::atexit([] { Ev("ret").i("at", at()); Ev("over").i("at", at()); Ev("end"); vs::die(0); });    // once the library's statics are gone
    auto d = learnlog::get_default_logger(); d->sinks().clear();
    learnlog::remove_all();
    for (auto& o : sc.ops) {
        if (o[0] != "0") continue;
        if (o[1] == "start") {
            for (int k = 1; k <= std::stoi(o[2]); ++k) {
                for (auto& q : sc.ops) if (q[0] == std::to_string(k) && q[1] == "new") P[q[2]];     // (the map itself is not shared)
                thr.emplace_back([&sc, k] { for (auto& q : sc.ops) if (q[0] == std::to_string(k)) step(q); Ev("tend"); });
            }
        } else if (o[1] == "join") { for (auto& t : thr) t.join(); thr.clear(); }
        else step(o);
    }
    Ev("over").i("at", at());
}
int main(int c, char** v) { return harness_main(c, v, run); }
