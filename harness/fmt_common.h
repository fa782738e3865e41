// Shared by the drivers that look at formatted text.
#pragma once
#include "harness.h"
#include "sinks/formatters/pattern_formatter.h"
#include <cstdlib>
#include <ctime>
#include <unistd.h>

// a zone with a fixed offset (minutes east of UTC); our own splitting of times uses it too
static long g_zone_off = 0;
static bool g_zone_dst = false;    // one hour more from 10 April to 27 October, both at 2:00 standard time
inline void set_zone(long minutes, bool dst = false) {
    char b[80]; long a = minutes < 0 ? -minutes : minutes, d = minutes + 60, e = d < 0 ? -d : d;
    int n = snprintf(b, sizeof b, "XXX%c%ld:%02ld", minutes < 0 ? '+' : '-', a / 60, a % 60);   // POSIX: west is positive
    if (dst) snprintf(b + n, sizeof b - (size_t)n, "YYY%c%ld:%02ld,J100/2,J300/3", d < 0 ? '+' : '-', e / 60, e % 60);
    setenv("TZ", b, 1); tzset(); g_zone_off = minutes * 60; g_zone_dst = dst;
}
inline long long zone_off(long long utc) {
    if (!g_zone_dst) return g_zone_off;
    long long s = utc + g_zone_off, sod = ((s % 86400) + 86400) % 86400, z = (s - sod) / 86400 + 719468;
    long long doe = z - z / 146097 * 146097, yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    long long doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153, d = doy - (153 * mp + 2) / 5 + 1, m = mp < 10 ? mp + 3 : mp - 9;
    long long k = (m * 100 + d) * 100000 + sod;
    return g_zone_off + (k >= 410 * 100000 + 7200 && k < 1027 * 100000 + 7200 ? 3600 : 0);
}
inline std::string split_time(learnlog::sys_clock::time_point t) {
    long long utc = std::chrono::duration_cast<std::chrono::nanoseconds>(t.time_since_epoch()).count();
    long long ns = utc + zone_off(utc < 0 ? -((-utc + 999999999LL) / 1000000000LL) : utc / 1000000000LL) * 1000000000LL;
    long long n = ns % 1000000000LL; if (n < 0) n += 1000000000LL;          // times before 1970: downwards
    long long s = (ns - n) / 1000000000LL, sod = s % 86400; if (sod < 0) sod += 86400;
    return "{\"day\":" + std::to_string((s - sod) / 86400) + ",\"sod\":" + std::to_string(sod) + ",\"ns\":" + std::to_string(n) + "}";
}
// the fields of a message as Pattern.tla has them
inline std::string msg_json(const learnlog::base::log_msg& m) {
    std::string t = split_time(m.time);
    bool loc = m.loc.line > 0;
    return "{\"nm\":" + json_str(std::string(m.logger_name.data(), m.logger_name.size())) + ",\"txt\":" + json_str(std::string(m.msg.data(), m.msg.size()))
        + ",\"lv\":" + std::to_string((int)m.level) + ",\"file\":" + json_str(loc && m.loc.filename ? m.loc.filename : "") + ",\"line\":" + std::to_string(m.loc.line)
        + ",\"fn\":" + json_str(loc && m.loc.funcname ? m.loc.funcname : "") + ",\"tid\":\"" + std::to_string(m.tid) + "\"," + t.substr(1);
}
// a custom flag: its tag and how often this very object was used, padded as asked for
class CustomFlag : public learnlog::sinks::custom_flag_formatter {
public:
    CustomFlag(std::string tag, bool bad) : tag_(tag), bad_(bad) {}
    void format(const learnlog::base::log_msg&, const std::tm&, learnlog::fmt_memory_buf& dest) override {
        if (bad_) throw std::runtime_error("flag " + tag_);
        std::string s = tag_ + "#" + std::to_string(++n_);
        learnlog::sinks::filler f(s.size(), spaces_info_, dest);
        f.fill_msg(learnlog::fmt_string_view(s.data(), s.size()));
    }
    std::unique_ptr<learnlog::sinks::custom_flag_formatter> clone() const override {
        return std::unique_ptr<learnlog::sinks::custom_flag_formatter>(new CustomFlag(tag_, bad_));
    }
private:
    std::string tag_; bool bad_; int n_ = 0;
};
