// Driver for asynchronous logging: thread pools, async_logger, flush, shutdown.
#include "harness.h"
#include "async_logger.h"
#include "base/lock_thread_pool.h"
#include "base/lockfree_thread_pool.h"
#include "base/lockfree_concurrent_thread_pool.h"
#include "sinks/sink.h"
#include <atomic>
#include <condition_variable>
#include <mutex>
#include <set>
#include <thread>

using namespace learnlog;

static long us(sys_clock::time_point t, uint64_t epoch) {
    return (long)(std::chrono::duration_cast<std::chrono::microseconds>(t.time_since_epoch()).count() - (long long)epoch * 1000000ll);
}
static uint64_t g_epoch;

// unit id embedded in a text "<uid>:..."
static long uid_of(const std::string& s) {
    size_t k = 0; long v = 0;
    while (k < s.size() && isdigit((unsigned char)s[k])) v = v * 10 + (s[k++] - '0');
    return (k == 0 || k >= s.size() || s[k] != ':') ? -1 : v;
}

class tsink : public sinks::sink {
public:
    explicit tsink(std::string n) : name_(std::move(n)) {}
    void log(const base::log_msg& m) override {
        std::string txt(m.msg.data(), m.msg.size());
        long u = uid_of(txt);
        Ev("out").s("s", name_).i("u", u).s("txt", txt).s("nm", std::string(m.logger_name.data(), m.logger_name.size()))
            .i("lv", m.level).i("line", m.loc.line).s("file", m.loc.filename ? m.loc.filename : "")
            .s("fn", m.loc.funcname ? m.loc.funcname : "").i("tid", (long)m.tid).i("tm", us(m.time, g_epoch));
        pass();
        if (fail_out.count(u)) throw std::runtime_error("out " + name_ + " " + std::to_string(u));
    }
    void flush() override {
        Ev("sflush").s("s", name_);
        pass();
        if (fail_flush > 0) { --fail_flush; throw std::runtime_error("flush " + name_); }
    }
    void set_pattern(const std::string&) override {}
    void set_formatter(formatter_uni_ptr) override {}
    void pass() {
        if (!gated) { vs::point(); return; }
        std::unique_lock<std::mutex> l(m_);
        while (gated) cv_.wait(l);
    }
    void open() { { std::lock_guard<std::mutex> l(m_); gated = false; } cv_.notify_all(); }
    bool gated = false;
    std::set<long> fail_out;
    int fail_flush = 0;
private:
    std::string name_;
    std::mutex m_;
    std::condition_variable cv_;
};

struct World {
    std::map<std::string, std::shared_ptr<base::thread_pool>> pools;
    std::map<std::string, std::shared_ptr<tsink>> sinks;
    std::map<std::string, std::shared_ptr<async_logger>> loggers;
    std::atomic<long> uid{0};
    std::vector<std::thread> thr;
} ;
static World* W;
static std::vector<std::string> csv(const std::string& s) {
    std::vector<std::string> r; size_t a = 0;
    while (a < s.size()) { size_t b = s.find(',', a); if (b == std::string::npos) b = s.size(); r.push_back(s.substr(a, b - a)); a = b + 1; }
    return r;
}

static void do_log(async_logger& lg, int form, level::level_enum lv, std::string txt, int line) {
    static const char* file = "dir/source.cpp"; static const char* fn = "func";
    source_loc loc{file, line, fn};
    switch (form) {
        case 0: lg.log(lv, fmt_string_view(txt.data(), txt.size())); break;
        case 1: lg.log(loc, lv, fmt_string_view(txt.data(), txt.size())); break;
        case 2: lg.log(sys_clock::time_point(std::chrono::seconds(g_epoch) + std::chrono::microseconds(line * 1000 + 7)), loc, lv,
                       fmt_string_view(txt.data(), txt.size())); break;
        case 3: lg.log(loc, lv, "{}", txt); break;
        case 4: lg.log(lv, txt); break;
        default:
            switch (lv) {
                case level::trace: lg.trace("{}{}", txt.substr(0, 2), txt.substr(2)); break;
                case level::debug: lg.debug(txt); break;
                case level::info: lg.info("{}", txt); break;
                case level::warn: lg.warn(txt); break;
                case level::error: lg.error("{0}", txt); break;
                case level::critical: lg.critical(txt); break;
                default: lg.log(lv, txt);
            }
    }
    std::fill(txt.begin(), txt.end(), '#');      // the caller reuses its buffer
}

static void step(const std::vector<std::string>& o, const Scenario& sc);

static void thread_ops(const Scenario* sc, std::string who) {
    for (auto& o : sc->ops) if (o[0] == who) step(o, *sc);
    Ev("tend");
}

static void step(const std::vector<std::string>& o, const Scenario& sc) {
    const std::string& op = o[1];
    if (op == "pool") {            // P type q w ctor
        std::string P = o[2]; size_t q = std::stoul(o[4]), w = std::stoul(o[5]); int ctor = std::stoi(o[6]);
        auto on = [P] { Ev("wstart").s("p", P); vs::point(); };
        auto off = [P] { vs::point(); Ev("wstop").s("p", P); };
        Ev("newpool").s("p", P).i("ctor", ctor);
        try {
            std::shared_ptr<base::thread_pool> tp;
            if (o[3] == "lock") {
                if (ctor == 0) tp = std::make_shared<base::lock_thread_pool>(q, w, on, off);
                else if (ctor == 1) tp = std::make_shared<base::lock_thread_pool>(q, w, on);
                else tp = std::make_shared<base::lock_thread_pool>(q, w);
            } else if (o[3] == "free") {
                if (ctor == 0) tp = std::make_shared<base::lockfree_thread_pool>(q, w, on, off);
                else if (ctor == 1) tp = std::make_shared<base::lockfree_thread_pool>(q, w, on);
                else tp = std::make_shared<base::lockfree_thread_pool>(q, w);
            } else {
                if (ctor == 0) tp = std::make_shared<base::lockfree_concurrent_thread_pool>(q, w, on, off);
                else if (ctor == 1) tp = std::make_shared<base::lockfree_concurrent_thread_pool>(q, w, on);
                else tp = std::make_shared<base::lockfree_concurrent_thread_pool>(q, w);
            }
            W->pools[P] = tp;
            Ev("newpoolret").s("p", P).b("ok", true).i("q", (long)tp->message_queue_size()).i("w", (long)tp->threads_size()).i("ty", tp->message_queue_type());
        } catch (const learnlog_excpt& e) {
            Ev("newpoolret").s("p", P).b("ok", false).i("q", 0).i("w", 0).i("ty", 0);
        }
    } else if (op == "sink") {     // S level gated
        auto s = std::make_shared<tsink>(o[2]);
        s->set_level((level::level_enum)std::stoi(o[3]));
        s->gated = o[4] == "1";
        W->sinks[o[2]] = s;
    } else if (op == "failout") { W->sinks[o[2]]->fail_out.insert(std::stol(o[3])); }
    else if (op == "failflush") { W->sinks[o[2]]->fail_flush = std::stoi(o[3]); }
    else if (op == "logger") {     // L P level flush sinks
        std::vector<sink_shr_ptr> v;
        for (auto& s : csv(o[6])) v.push_back(W->sinks[s]);
        auto l = std::make_shared<async_logger>(o[2], v.begin(), v.end(), W->pools[o[3]]);
        l->set_log_level((level::level_enum)std::stoi(o[4]));
        l->set_flush_level((level::level_enum)std::stoi(o[5]));
        W->loggers[o[2]] = l;
    } else if (op == "start") {
        for (int k = 1; k <= std::stoi(o[2]); ++k) W->thr.emplace_back(thread_ops, &sc, std::to_string(k));
    } else if (op == "join") {
        for (auto& t : W->thr) t.join();
        W->thr.clear();
    } else if (op == "log") {      // L level form size line
        auto lg = W->loggers[o[2]];
        int lv = std::stoi(o[3]), form = std::stoi(o[4]), size = std::stoi(o[5]), line = std::stoi(o[6]);
        long u = ++W->uid;
        std::string txt = std::to_string(u) + ":";
        while ((int)txt.size() < size) txt += (char)('a' + (txt.size() * 7 + (size_t)u) % 26);
        if (u % 6 == 5 && txt.size() > 8) txt[txt.size() - 2] = '\0';      // a text may hold any byte
        bool loc = form == 1 || form == 2 || form == 3;
        Ev("log").i("u", u).s("l", o[2]).i("lv", lv).s("txt", txt).i("line", loc ? line : 0).s("file", loc ? "dir/source.cpp" : "")
            .s("fn", loc ? "func" : "").i("tid", vs::tid()).i("tm0", form == 2 ? line * 1000 + 7 : (long)(vs::now_ns() / 1000)).b("xt", form == 2);
        do_log(*lg, form, (level::level_enum)lv, txt, line);
        Ev("logret").i("u", u).i("tm1", (long)(vs::now_ns() / 1000));
    } else if (op == "flush") {
        auto lg = W->loggers[o[2]];
        long u = ++W->uid;
        Ev("flush").i("u", u).s("l", o[2]);
        lg->flush();
        Ev("flushret").i("u", u);
    } else if (op == "drop") {
        Ev("drop").s("p", o[2]);
        W->pools[o[2]].reset();
        Ev("dropret").s("p", o[2]);
    } else if (op == "forget") { W->loggers.erase(o[2]); }
    else if (op == "open") { Ev("open").s("s", o[2]); W->sinks[o[2]]->open(); }
    else if (op == "settle") { std::this_thread::sleep_for(std::chrono::milliseconds(std::stoi(o[2]))); Ev("settled"); }
    else if (op == "pause") { std::this_thread::sleep_for(std::chrono::milliseconds(std::stoi(o[2]))); }
    else if (op == "yield") { std::this_thread::yield(); }
}

static void run(const Scenario& sc) {
    capture_stderr(true);
    g_epoch = (uint64_t)sc.num("epoch", 1700000000);
    W = new World;
    for (auto& o : sc.ops) if (o[0] == "0") step(o, sc);
}
int main(int c, char** v) { return harness_main(c, v, run); }
