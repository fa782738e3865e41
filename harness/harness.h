// Common part of the drivers: reads scenarios, runs each in a forked process under the controlled
// scheduler, records its events as JSON. One line of output per scenario: {"id":..,"ev":[..]}
#pragma once
#include "vsched.h"
#include <map>
#include <string>
#include <vector>

struct Scenario {
    std::string id;
    std::map<std::string, std::string> cfg;
    std::vector<std::vector<std::string>> ops;
    std::string get(const std::string& k, const std::string& d = "") const { auto i = cfg.find(k); return i == cfg.end() ? d : i->second; }
    long num(const std::string& k, long d = 0) const { auto i = cfg.find(k); return i == cfg.end() ? d : std::stol(i->second); }
};

// one event; written when the object is destroyed
class Ev {
public:
    explicit Ev(const char* name);
    ~Ev();
    Ev& s(const char* k, const std::string& v);
    Ev& i(const char* k, long v);
    Ev& b(const char* k, bool v);
    Ev& raw(const char* k, const std::string& json);
private:
    std::string j_;
};
std::string json_str(const std::string&);
std::string json_list(const std::vector<std::string>&);   // list of strings
// log what was written to stderr since the last call, as "report" events (Ev does it first)
void poll_reports();
void capture_stderr(bool poll_in_events);
std::string stderr_new();
void settle_us(long us);           // sleep, then go on when every other thread is blocked
const std::string& scratch();      // this scenario's own empty directory, also the working directory

using RunFn = void (*)(const Scenario&);
// post (optional): runs in the parent after the scenario's process ended; may return more events (JSON, comma separated)
using PostFn = std::string (*)(const Scenario&, const std::string& dir);
int harness_main(int argc, char** argv, RunFn run, PostFn post = nullptr);
