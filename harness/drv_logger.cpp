// Driver for loggers: filtering, fan-out, formatters, backtraces, failures, copies.
#include "harness.h"
#include "fmt_common.h"
#include "learnlog.h"
#include "sinks/basic_sink.h"
#include "sinks/null_sink.h"
#include "sinks/std_sinks.h"
#include "sinks/std_color_sinks.h"
#include <atomic>
#include <deque>
#include <thread>
#include <mutex>
using namespace learnlog;

struct thrower { std::string what; };
template <> struct fmt::formatter<thrower> {
    constexpr auto parse(format_parse_context& c) -> decltype(c.begin()) { return c.begin(); }
    auto format(const thrower& t, format_context& c) const -> decltype(c.out()) { fmt::format_to(c.out(), "partial output"); throw std::runtime_error(t.what); }
};
struct odd_error : std::exception {
    std::string w; explicit odd_error(std::string x) : w(std::move(x)) {}
    const char* what() const noexcept override { return w.c_str(); }
};
[[noreturn]] static void fail(const std::string& w) {      // standard exceptions of several types
    switch (w.size() % 5) {
        case 0: throw std::runtime_error(w);
        case 1: throw std::invalid_argument(w);
        case 2: throw learnlog_excpt(w);
        case 3: throw odd_error(w);
        default: throw std::system_error(std::make_error_code(std::errc::no_space_on_device), w);
    }
}
static bool g_async = false;
static bool by_worker() { return g_async && vs::self() != 0; }
static bool g_nosink = false;
struct probe {
    virtual ~probe() = default;
    std::string name; std::atomic<int> ff{0};
    void wrote(const base::log_msg& m) {
        std::string t(m.msg.data(), m.msg.size());
        vs::point();
        if (t.find("!" + name + "!") != std::string::npos) fail("write error in " + name + ": " + t);
    }
    void flushed() {
        if (g_nosink) return;
        Ev("sflush").s("s", name).b("w", by_worker());
        vs::point();
        int n = ff.load();
        if (n > 0) ff = n - 1;
        if (n) fail("flush error in " + name);
    }
};
class raw_sink : public sinks::sink, public probe {
public:
    void log(const base::log_msg& m) override { Ev("out").s("s", name).b("w", by_worker()).raw("m", msg_json(m)); wrote(m); }
    void flush() override { flushed(); }
    void set_pattern(const std::string&) override {}
    void set_formatter(formatter_uni_ptr) override {}
};
class fmt_sink : public sinks::basic_sink<std::mutex>, public probe {
public:
    void output_(const base::log_msg& m) override {
        fmt_memory_buf b;
        m.color_index_start = m.color_index_end = 0;
        formatter_->format(m, b);
        Ev("txt").s("s", name).b("w", by_worker()).s("txt", std::string(b.data(), b.size())).i("cs", (long)m.color_index_start).i("ce", (long)m.color_index_end);
        wrote(m);
    }
    void flush_() override { flushed(); }
};
static std::map<std::string, sink_shr_ptr> S;
static std::map<std::string, probe*> PR;
static std::map<std::string, logger_shr_ptr> L;
static std::shared_ptr<base::thread_pool> pool;
static std::vector<std::shared_ptr<base::thread_pool>> held;    // the user's own references
static std::vector<std::thread> thr;
static std::deque<std::string> keep;

static bool g_reg = false;
static std::string reg_obs();
static std::string obs() {
    std::string j = "{\"lg\":{";
    bool first = true;
    for (auto& kv : L) {
        logger& l = *kv.second;
        std::vector<std::string> ss;
        for (auto& s : l.sinks()) { std::string n = "?"; for (auto& x : S) if (x.second == s) n = x.first; ss.push_back(n); }
        j += (first ? "" : ",") + json_str(kv.first) + ":{\"nm\":" + json_str(l.name()) + ",\"lv\":" + std::to_string((int)l.get_log_level()) + ",\"fl\":" + std::to_string((int)l.get_flush_level())
           + ",\"pat\":" + json_str(l.get_pattern()) + ",\"as\":" + (l.is_async() ? "true" : "false") + ",\"sinks\":" + json_list(ss) + "}";
        first = false;
    }
    j += "},\"sl\":{"; first = true;
    for (auto& kv : S) if (kv.first[0] == 's') { j += (first ? "" : ",") + json_str(kv.first) + ":" + std::to_string((int)kv.second->get_level()); first = false; }
    return j + "}" + (g_reg ? ",\"reg\":" + reg_obs() : "") + "}";
}
static std::vector<std::string> csv(const std::string& s) {
    std::vector<std::string> r; size_t a = 0;
    while (a < s.size()) { size_t b = s.find(',', a); if (b == std::string::npos) b = s.size(); r.push_back(s.substr(a, b - a)); a = b + 1; }
    return r;
}
static std::string handle_of(const logger_shr_ptr& p) {
    if (!p) return "";
    std::string r = "?";
    vs::quiet(1);
    for (auto& x : L) if (x.second == p) r = x.first;
    if (r == "?" && p->sinks().size() == 1)             // a logger whose creation has not returned yet: known by its sink, smK for MK
        for (auto& x : PR) if (x.first.compare(0, 2, "sm") == 0 && dynamic_cast<sinks::sink*>(x.second) == p->sinks()[0].get()) r = "M" + x.first.substr(2);
    vs::quiet(-1);
    return r;
}
static const char* KIND[] = {"lock", "free", "conc"};
static std::string reg_obs() {
    std::string j = "{\"get\":{";
    bool first = true;
    for (auto n : {"alpha", "beta", "gamma", "delta", "", "default_logger", "never"}) { j += (first ? "" : ",") + json_str(n) + ":" + json_str(handle_of(learnlog::get_logger(n))); first = false; }
    std::vector<std::string> all;
    learnlog::exec_all([&](logger_shr_ptr l) { all.push_back(handle_of(l)); });
    auto tp = learnlog::get_thread_pool();
    return j + "},\"def\":" + json_str(handle_of(learnlog::get_default_logger())) + ",\"all\":" + json_list(all)
        + ",\"pool\":{\"ty\":" + json_str(tp ? KIND[tp->message_queue_type()] : "") + ",\"q\":" + std::to_string(tp ? tp->message_queue_size() : 0) + ",\"w\":" + std::to_string(tp ? tp->threads_size() : 0) + "}}";
}
static formatter_uni_ptr make_formatter(const std::string& pat, const std::string& eol, const std::string& c, const std::string& tag, bool bad) {
    sinks::pattern_formatter::cust_flag_table t;
    if (!c.empty()) t[c[0]] = std::unique_ptr<sinks::custom_flag_formatter>(new CustomFlag(tag, bad));
    return learnlog::make_unique<sinks::pattern_formatter>(pat, eol, std::move(t));
}
template <typename F> static void named(int lv, F f) { f(lv); }
static const char* BADFMT[] = {"{} {}", "{", "{:d}", "}{", "{nope}"};

struct Log { std::string txt, err; bool loc, xt; };
// what a call of this form has to log
static Log plan(int form, const std::string& txt) {
    Log r{txt, "", false, false};
    switch (form) {
        case 1: case 3: case 8: case 20: r.loc = true; break;
        case 2: r.loc = r.xt = true; break;
        case 4: case 21: r.txt = txt + "|42"; break;
        case 9: case 11: case 26: case 27: r.txt = "1234"; break;
        case 10: case 22: r.loc = true; r.txt = "1234"; break;
        case 12: case 13: r.loc = form == 12; try { std::string a = txt; (void)fmt::vformat(BADFMT[txt.size() % 5], fmt::make_format_args(a)); r.err = "no error"; } catch (const std::exception& e) { r.err = e.what(); } break;
        case 14: r.loc = true; r.err = "cannot format " + txt; break;
    }
    return r;
}
static void do_log(logger& g, int form, level::level_enum lv, const std::string& txt, source_loc loc, sys_clock::time_point tp) {
    std::string t = txt;
    fmt_string_view sv(t.data(), t.size());
    int n = 1234;
#define NAMED(OBJ, ...) switch (lv) { case level::trace: OBJ trace(__VA_ARGS__); break; case level::debug: OBJ debug(__VA_ARGS__); break; case level::info: OBJ info(__VA_ARGS__); break; \
        case level::warn: OBJ warn(__VA_ARGS__); break; case level::error: OBJ error(__VA_ARGS__); break; default: OBJ critical(__VA_ARGS__); }
    switch (form) {
        case 0: g.log(lv, sv); break;
        case 1: g.log(loc, lv, sv); break;
        case 2: g.log(tp, loc, lv, sv); break;
        case 3: g.log(loc, lv, "{}", t); break;
        case 4: g.log(lv, "{}|{}", t, 42); break;
        case 5: NAMED(g., t) break;
        case 6: NAMED(g., "{}", t) break;
        case 7: g.log(lv, t); break;
        case 8: g.log(loc, lv, t); break;
        case 9: g.log(lv, n); break;
        case 10: g.log(loc, lv, n); break;
        case 11: NAMED(g., n) break;
        case 12: g.log(loc, lv, fmt::runtime(BADFMT[txt.size() % 5]), t); break;
        case 13: g.log(lv, fmt::runtime(BADFMT[txt.size() % 5]), t); break;
        case 14: g.log(loc, lv, "a{}", thrower{"cannot format " + t}); break;
        case 20: learnlog::log(loc, lv, "{}", t); break;
        case 21: learnlog::log(lv, "{}|{}", t, 42); break;
        case 22: learnlog::log(loc, lv, n); break;
        case 23: learnlog::log(lv, t); break;
        case 24: NAMED(learnlog::, "{}", t) break;
        case 25: NAMED(learnlog::, t) break;
        case 26: learnlog::log(lv, n); break;
        case 27: NAMED(learnlog::, n) break;
    }
    std::fill(t.begin(), t.end(), '#');
}

static bool seq() { return vs::self() == 0; }
static void ret(bool nw, bool regop) {
    // (the registry's own functions have to finish what they do before they return)
    if (g_async && !nw && (!regop || !held.empty())) std::this_thread::sleep_for(std::chrono::milliseconds(3));
    if (seq()) Ev("ret").b("nw", nw).raw("obs", obs()); else Ev("ret").b("nw", false);
}
// a sink that make() creates by type; each kind of logger with a type of its own
template <int K> class made_sink : public fmt_sink { public: explicit made_sink(std::string n) { name = n; vs::quiet(1); PR[n] = this; vs::quiet(-1); } };
static logger_shr_ptr create(const std::string& kind, const std::string& nm, const std::string& s) {
    bool a = s.back() % 2;
    if (kind == "sync") return learnlog::create<made_sink<0>>(nm, s);
    if (kind == "lock") return a ? learnlog::create_async_lock<made_sink<0>>(nm, s) : learnlog::create_async_lock<made_sink<1>>(nm, s);
    if (kind == "free") return a ? learnlog::create_async_lockfree<made_sink<0>>(nm, s) : learnlog::create_async_lockfree<made_sink<1>>(nm, s);
    return a ? learnlog::create_async_lockfree_concurrent<made_sink<0>>(nm, s) : learnlog::create_async_lockfree_concurrent<made_sink<1>>(nm, s);
}
template <typename P> static void make_pool(size_t q, size_t w) { try { learnlog::initialize_thread_pool<P>(q, w); } catch (const learnlog_excpt&) {} }
// calls that may overlap: each says what it returned
static bool g_lin = false;
static void lin_step(const std::vector<std::string>& o) {
    const std::string& op = o[1];
    base::registry& R = base::registry::instance();
    std::string err, val; std::vector<std::string> all;
    logger_shr_ptr l; if (op == "rreg" || op == "rinit" || op == "rdef") l = L[o[2]];
    bool mk = op == "rcreate";
    Ev("call").s("op", op).s("h", o.size() > 2 ? o[mk ? 3 : 2] : "").s("nm", o.size() > 2 ? o[mk ? 4 : 2] : "").s("kind", mk ? o[2] : "").s("s", mk ? o[5] : "").i("n", op == "rlv" || op == "rfl" ? std::stol(o[3]) : op == "rglv" || op == "rgfl" || op == "rauto" ? std::stol(o[2]) : 0)
        .s("pat", op == "rgpat" ? o[2] : op == "rpat" ? o[3] : "").raw("now", split_time(sys_clock::now())).s("ty", op == "rpool" ? o[2] : "").i("q", op == "rpool" ? std::stol(o[3]) : 0).i("w", op == "rpool" ? std::stol(o[4]) : 0);
    try {
        if (op == "rreg") R.register_logger(l);
        else if (op == "rinit") R.initialize_logger(l);
        else if (op == "rdef") R.set_default_logger(l);
        else if (op == "rdefnone") R.set_default_logger(nullptr);
        else if (op == "rrem") R.remove_logger(o[2]);
        else if (op == "rremall") R.remove_all();
        else if (op == "rauto") R.set_auto_register_logger(o[2] == "1");
        else if (op == "rglv") R.set_global_log_level((level::level_enum)std::stoi(o[2]));
        else if (op == "rgfl") R.set_global_flush_level((level::level_enum)std::stoi(o[2]));
        else if (op == "rlv") R.set_log_level(o[2], (level::level_enum)std::stoi(o[3]));
        else if (op == "rfl") R.set_flush_level(o[2], (level::level_enum)std::stoi(o[3]));
        else if (op == "rgpat") R.set_global_pattern(o[2]);
        else if (op == "rpat") R.set_pattern(o[2], o[3]);
        else if (op == "rpool") {
            size_t q = std::stoul(o[3]), w = std::stoul(o[4]);
            if (o[2] == "lock") R.initialize_thread_pool<base::lock_thread_pool>(q, w);
            else if (o[2] == "free") R.initialize_thread_pool<base::lockfree_thread_pool>(q, w);
            else R.initialize_thread_pool<base::lockfree_concurrent_thread_pool>(q, w);
        }
        else if (op == "rnopool") R.register_thread_pool(nullptr);
        else if (op == "rclose") R.close_registry();
        else if (mk) {
            l = create(o[2], o[4], o[5]);
            vs::quiet(1); L[o[3]] = l; S[o[5]] = l->sinks().at(0); vs::quiet(-1);
        }
        else if (op == "alive") {        // the asynchronous loggers whose pool is there
            poll_reports();
            for (auto& x : L) if (x.second->is_async()) { x.second->flush(); if (stderr_new().empty()) all.push_back(x.first); }
        }
        else if (op == "get") val = handle_of(R.get_logger(o[2]));
        else if (op == "getdef") val = handle_of(R.get_default_logger());
        else if (op == "exec") R.exec_all([&](logger_shr_ptr x) { vs::point(); all.push_back(handle_of(x)); });
        else { fprintf(stderr, "unknown op %s\n", op.c_str()); vs::die(9); }
    } catch (const std::exception& e) { err = e.what(); }
    if (seq()) Ev("ret").s("err", err).s("val", val).raw("all", json_list(all)).raw("obs", obs());
    else Ev("ret").s("err", err).s("val", val).raw("all", json_list(all));
}
static void step(const Scenario& sc, const std::vector<std::string>& o) {
    const std::string& op = o[1];
    if (op == "adv") { vs::advance_ns((uint64_t)std::stoull(o[2])); return; }
    if (op == "clock") { vs::clock_step(std::stoll(o[2])); return; }            // somebody sets the system clock
    if (op == "fork") { vs::fork_on(); return; }
    if (op == "yield") { std::this_thread::yield(); return; }
#define CALL() Ev("call").s("op", op).i("pid", getpid()).s("tid", std::to_string(vs::tid())).raw("now", split_time(sys_clock::now()))
    if (op == "sink") {                 // s kind level
        CALL().s("s", o[2]).s("kind", o[3]).i("n", std::stoi(o[4]));
        if (o[3] == "raw") { auto x = std::make_shared<raw_sink>(); x->name = o[2]; PR[o[2]] = x.get(); S[o[2]] = x; }
        else if (o[3] == "full") {      // a console sink; its stream can take nothing
            if (stdout != freopen("/dev/full", "w", stdout)) vs::die(8);
            setvbuf(stdout, nullptr, _IONBF, 0);
            if (o[2].back() % 2) S[o[2]] = std::make_shared<sinks::stdout_sink_mt>(); else S[o[2]] = std::make_shared<sinks::stdout_color_sink_mt>();
        } else if (o[3] == "null") S[o[2]] = std::make_shared<sinks::null_sink_mt>();
        else { auto x = std::make_shared<fmt_sink>(); x->name = o[2]; PR[o[2]] = x.get(); S[o[2]] = x; }
        S[o[2]]->set_level((level::level_enum)std::stoi(o[4]));
    } else if (op == "new") {           // h name async sinks
        std::vector<std::string> ss = csv(o[5]);
        CALL().s("h", o[2]).s("nm", o[3]).b("as", o[4] == "1").raw("ss", json_list(ss));
        std::vector<sink_shr_ptr> v; for (auto& s : ss) v.push_back(S[s]);
        if (o[4] == "1") {
            std::shared_ptr<base::thread_pool> p = g_reg ? learnlog::get_thread_pool() : pool;
            if (v.size() == 1) L[o[2]] = std::make_shared<async_logger>(o[3], v[0], p);
            else if (v.size() == 2) L[o[2]] = std::make_shared<async_logger>(o[3], sinks_init_list{v[0], v[1]}, p);
            else L[o[2]] = std::make_shared<async_logger>(o[3], v.begin(), v.end(), p);
        } else {
            if (v.empty()) L[o[2]] = std::make_shared<logger>(o[3]);
            else if (v.size() == 1) L[o[2]] = std::make_shared<logger>(o[3], v[0]);
            else if (v.size() == 2) L[o[2]] = std::make_shared<logger>(o[3], sinks_init_list{v[0], v[1]});
            else L[o[2]] = std::make_shared<logger>(o[3], v.begin(), v.end());
        }
    }
    else if (op == "lv") { CALL().s("h", o[2]).i("n", std::stoi(o[3])); L[o[2]]->set_log_level((level::level_enum)std::stoi(o[3])); }
    else if (op == "fl") { CALL().s("h", o[2]).i("n", std::stoi(o[3])); L[o[2]]->set_flush_level((level::level_enum)std::stoi(o[3])); }
    else if (op == "slv") { CALL().s("s", o[2]).i("n", std::stoi(o[3])); S[o[2]]->set_level((level::level_enum)std::stoi(o[3])); }
    else if (op == "ff") { CALL().s("s", o[2]).i("n", std::stoi(o[3])); if (PR.count(o[2])) PR[o[2]]->ff = std::stoi(o[3]); }
    else if (op == "add") { CALL().s("h", o[2]).s("s", o[3]); L[o[2]]->sinks().push_back(S[o[3]]); }
    else if (op == "rm") { CALL().s("h", o[2]).i("n", std::stoi(o[3])); auto& v = L[o[2]]->sinks(); v.erase(v.begin() + (std::stoi(o[3]) - 1)); }
    else if (op == "pat") { CALL().s("h", o[2]).s("pat", o[3]); L[o[2]]->set_pattern(o[3]); }
    else if (op == "fmtr") { CALL().s("h", o[2]).s("pat", o[3]).s("eol", o[4]).s("c", o[5]).s("tag", o[6]).b("bad", o[7] == "1"); L[o[2]]->set_formatter(make_formatter(o[3], o[4], o[5], o[6], o[7] == "1")); }
    else if (op == "spat") { CALL().s("s", o[2]).s("pat", o[3]); S[o[2]]->set_pattern(o[3]); }
    else if (op == "sfmtr") { CALL().s("s", o[2]).s("pat", o[3]).s("eol", o[4]).s("c", o[5]).s("tag", o[6]).b("bad", o[7] == "1"); S[o[2]]->set_formatter(make_formatter(o[3], o[4], o[5], o[6], o[7] == "1")); }
    else if (op == "clone") { CALL().s("h", o[2]).s("g", o[3]).s("nm", o[4]); L[o[2]] = L[o[3]]->clone(o[4]); }
    else if (op == "copy") { CALL().s("h", o[2]).s("g", o[3]); L[o[2]] = std::make_shared<logger>(*L[o[3]]); }
    else if (op == "move") { CALL().s("h", o[2]).s("g", o[3]); auto x = std::make_shared<logger>(std::move(*L[o[3]])); L.erase(o[3]); L[o[2]] = x; }
    else if (op == "swap") { CALL().s("h", o[2]).s("g", o[3]); if (o[4] == "1") learnlog::swap(*L[o[2]], *L[o[3]]); else L[o[2]]->swap(*L[o[3]]); }
    else if (op == "del") { CALL().s("h", o[2]); L.erase(o[2]); }
    else if (op == "enable") { CALL().s("h", o[2]).i("n", std::stoi(o[3])); L[o[2]]->enable_backtrace_n((size_t)std::stoi(o[3])); }
    else if (op == "disable") { CALL().s("h", o[2]); L[o[2]]->disable_backtrace(); }
    else if (op == "dump") { CALL().s("h", o[2]); L[o[2]]->dump_backtrace(); }
    else if (op == "flush") { CALL().s("h", o[2]); L[o[2]]->flush(); }
    else if (op == "log") {             // h form level text file line fn sec ns
        int form = std::stoi(o[3]), lv = std::stoi(o[4]);
        Log p = plan(form, o[5]);
        logger_shr_ptr lg = L[o[2]];
        static std::mutex km; const char *file, *fn;
        { std::lock_guard<std::mutex> g(km); keep.push_back(o[6]); file = keep.back().c_str(); keep.push_back(o[8]); fn = o[8] == "null" ? nullptr : keep.back().c_str(); }
        source_loc loc{file, std::stoi(o[7]), fn};
        sys_clock::time_point tp{std::chrono::seconds(std::stoll(o[9])) + std::chrono::nanoseconds(std::stoll(o[10]))};
        if (form >= 20) learnlog::set_default_logger(lg);
        {
            base::log_msg m(p.xt ? tp : sys_clock::now(), p.loc ? loc : source_loc{}, (level::level_enum)lv, fmt_string_view(p.txt.data(), p.txt.size()), "");
            m.tid = (size_t)vs::tid();
            CALL().s("h", o[2]).s("err", p.err).raw("m", msg_json(m));
        }
        do_log(*lg, form, (level::level_enum)lv, o[5], loc, tp);
    }
    else if (g_lin && op != "rstart") { lin_step(o); return; }
    else if (op == "rstart") {
        auto d = learnlog::get_default_logger(); d->sinks().clear(); L["D0"] = d; g_reg = true;
        CALL();
    }
    else if (op == "rinit") { CALL().s("h", o[2]); learnlog::initialize_logger(L[o[2]]); }
    else if (op == "rreg") { CALL().s("h", o[2]); learnlog::register_logger(L[o[2]]); }
    else if (op == "rauto") { CALL().i("n", std::stoi(o[2])); learnlog::set_auto_register_logger(o[2] == "1"); }
    else if (op == "rrem") { CALL().s("nm", o[2]); learnlog::remove_logger(o[2]); }
    else if (op == "rdef") { CALL().s("h", o[2]); learnlog::set_default_logger(L[o[2]]); }
    else if (op == "rdefnone") { CALL(); learnlog::set_default_logger(nullptr); }
    else if (op == "rgpat") { CALL().s("pat", o[2]); learnlog::set_global_pattern(o[2]); }
    else if (op == "rgfmt") { CALL().s("pat", o[2]).s("eol", o[3]).s("c", o[4]).s("tag", o[5]).b("bad", o[6] == "1"); learnlog::set_global_formatter(make_formatter(o[2], o[3], o[4], o[5], o[6] == "1")); }
    else if (op == "rpat") { CALL().s("nm", o[2]).s("pat", o[3]); learnlog::set_pattern(o[2], o[3]); }
    else if (op == "rglv") { CALL().i("n", std::stoi(o[2])); learnlog::set_global_log_level((level::level_enum)std::stoi(o[2])); }
    else if (op == "rgfl") { CALL().i("n", std::stoi(o[2])); learnlog::set_global_flush_level((level::level_enum)std::stoi(o[2])); }
    else if (op == "rlv") { CALL().s("nm", o[2]).i("n", std::stoi(o[3])); learnlog::set_log_level(o[2], (level::level_enum)std::stoi(o[3])); }
    else if (op == "rfl") { CALL().s("nm", o[2]).i("n", std::stoi(o[3])); learnlog::set_flush_level(o[2], (level::level_enum)std::stoi(o[3])); }
    else if (op == "rflush") { CALL(); learnlog::flush_all(); }
    else if (op == "rremall") { CALL(); learnlog::remove_all(); }
    else if (op == "rpool") {
        size_t q = std::stoul(o[3]), w = std::stoul(o[4]);
        CALL().s("ty", o[2]).i("q", (long)q).i("w", (long)w);
        if (o[5] == "1" && w >= 1 && w <= 1024) {
            std::shared_ptr<base::thread_pool> tp;
            if (o[2] == "lock") tp = std::make_shared<base::lock_thread_pool>(q, w); else if (o[2] == "free") tp = std::make_shared<base::lockfree_thread_pool>(q, w); else tp = std::make_shared<base::lockfree_concurrent_thread_pool>(q, w);
            learnlog::register_thread_pool(std::move(tp));
        }
        else if (o[2] == "lock") make_pool<base::lock_thread_pool>(q, w); else if (o[2] == "free") make_pool<base::lockfree_thread_pool>(q, w); else make_pool<base::lockfree_concurrent_thread_pool>(q, w);
    }
    else if (op == "rhold") { CALL(); held.push_back(learnlog::get_thread_pool()); }
    else if (op == "rdrop") { CALL(); held.clear(); }
    else if (op == "rnopool") { CALL(); learnlog::register_thread_pool(nullptr); }
    else if (op == "rcreate") {      // kind h name sink
        CALL().s("kind", o[2]).s("h", o[3]).s("nm", o[4]).s("s", o[5]);
        logger_shr_ptr l = create(o[2], o[4], o[5]);
        L[o[3]] = l; S[o[5]] = l->sinks().at(0);
    }
    else if (op == "rclose") { CALL(); learnlog::close(); }
    else if (op == "rexit") { CALL(); exit(0); }        // what the program left open is closed by the destructors of statics
    else { fprintf(stderr, "unknown op %s\n", op.c_str()); vs::die(9); }
    ret(op == "log" && o.size() > 11 && o[11] == "nw", op[0] == 'r' && op != "rm");
}
static void run(const Scenario& sc) {
    capture_stderr(true);
    set_zone(sc.num("off"));
    std::atexit([] { Ev("end"); vs::die(0); });         // after the statics of the library are gone, before those of this driver
    std::string p = sc.get("pool");
    g_lin = g_nosink = sc.num("lin");
    g_async = !p.empty() || sc.num("async");
    if (p == "lock") pool = std::make_shared<base::lock_thread_pool>(256, 1);
    else if (p == "free") pool = std::make_shared<base::lockfree_thread_pool>(256, 1);
    else if (p == "conc") pool = std::make_shared<base::lockfree_concurrent_thread_pool>(256, 1);
    for (auto& o : sc.ops) {
        if (o[0] != "0") continue;
        if (o[1] == "start") {
            for (int k = 1; k <= std::stoi(o[2]); ++k) thr.emplace_back([&sc, k] {
                for (auto& q : sc.ops) if (q[0] == std::to_string(k)) step(sc, q);
                Ev("tend");
            });
        } else if (o[1] == "join") { for (auto& t : thr) t.join(); thr.clear(); }
        else step(sc, o);
    }
    learnlog::set_default_logger(nullptr);
    learnlog::remove_all();
    pool.reset(); held.clear();
    learnlog::register_thread_pool(nullptr);
    poll_reports();
}
int main(int c, char** v) { return harness_main(c, v, run); }
