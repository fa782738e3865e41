// Driver for pattern_formatter: formatters are made, copied, changed and used on given messages.
#include "harness.h"
#include "fmt_common.h"
#include "sinks/formatters/pattern_formatter.h"
#include <deque>
using namespace learnlog;
using sinks::pattern_formatter;
static std::map<std::string, std::unique_ptr<pattern_formatter>> F;
static std::string at_now() { auto n = sys_clock::now(); return split_time(n); }

static void run(const Scenario& sc) {
    set_zone(sc.num("off"), sc.num("dst", 0) != 0);
    std::deque<std::string> keep;
    for (auto& o : sc.ops) {
        const std::string& op = o[0];
        if (op == "adv") { vs::advance_ns((uint64_t)std::stoull(o[1])); continue; }
        if (op == "clock") { vs::clock_step(std::stoll(o[1])); continue; }      // somebody sets the system clock
        if (op == "fork") { vs::fork_on(); continue; }
        const std::string& f = o[1];
        if (op == "new") { std::string n = at_now(); F[f].reset(o[2] == "%+" && o[3] == "default" ? new pattern_formatter() : o[3] == "default" ? new pattern_formatter(o[2]) : new pattern_formatter(o[2], o[3]));
            Ev("new").s("f", f).s("pat", o[2]).s("eol", o[3] == "default" ? DEFAULT_EOL : o[3]).raw("now", n); }
        else if (op == "clone") { std::string n = at_now(); formatter_uni_ptr x = F[o[2]]->clone(); F[f].reset(static_cast<pattern_formatter*>(x.release()));
            Ev("clone").s("f", f).s("g", o[2]).raw("now", n); }
        else if (op == "setpat") { std::string n = at_now(); F[f]->set_pattern(o[2]); Ev("setpat").s("f", f).s("pat", o[2]).raw("now", n); }
        else if (op == "flag") { F[f]->add_custom_flag<CustomFlag>(o[2][0], o[3], o[4] == "1"); Ev("flag").s("f", f).s("c", o[2]).s("tag", o[3]).b("bad", o[4] == "1"); }
        else if (op == "fmt") {      // f nm txt lv file line fn tid sec ns
            keep.push_back(o[5]); const char* file = keep.back().c_str();
            keep.push_back(o[7]); const char* fn = o[7] == "null" ? nullptr : keep.back().c_str();
            sys_clock::time_point t = sys_clock::time_point(std::chrono::seconds(std::stoll(o[9])) + std::chrono::nanoseconds(std::stoll(o[10])));
            base::log_msg m(t, source_loc{o[6] == "0" && o[5].empty() ? nullptr : file, std::stoi(o[6]), fn}, (level::level_enum)std::stoi(o[4]), fmt_string_view(o[3].data(), o[3].size()), fmt_string_view(o[2].data(), o[2].size()));
            m.tid = (size_t)std::stoull(o[8]);
            fmt_memory_buf buf; std::string err;
            try { F[f]->format(m, buf); } catch (const std::exception& e) { err = e.what(); }
            Ev("fmt").s("f", f).raw("m", msg_json(m)).i("pid", getpid()).s("txt", std::string(buf.data(), buf.size())).i("cs", (long)m.color_index_start).i("ce", (long)m.color_index_end).s("err", err);
        }
    }
}
int main(int c, char** v) { return harness_main(c, v, run); }
