// Controlled scheduler: runs the threads of one process one at a time, decides every switch from a
// seed, owns the clock, and reports deadlock and livelock instead of hanging. See DESIGN.md.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>

namespace vs {

struct Config {
    uint64_t seed = 1;
    int strategy = 0;          // 0 random at sync points and memory accesses, 1 priorities (PCT), 2 run-to-block, 3 waits before shared accesses
    int mem_mean = 200;        // mean number of memory accesses between preemptions
    int sync_pct = 40;         // chance (%) of a preemption at a synchronisation operation
    int hunt_pct = 10;         // chance (%) of a wait before an access to memory that another thread used too
    int change_points = 3;     // PCT
    int jump_permille = 0;     // chance of letting time pass to the next deadline at a switch
    int spurious_permille = 0; // chance of a spurious wake-up at a switch
    uint64_t tick_ns = 1000;   // how far each reading of the clock advances it
    uint64_t epoch_s = 1700000000;  // system clock at start
};

void begin(const Config&);     // in the (forked) process: the calling thread becomes thread 0
bool active();
int self();                    // index of the calling thread
long tid();                    // what the system calls the calling thread
void fork_on();                // the rest of the process happens in a child (only while no other thread runs)
uint64_t now_ns();             // virtual time since begin()
void advance_ns(uint64_t ns);  // let time pass
void clock_step(int64_t ns);   // the system clock (not the steady one) is set forward or back
void point();                  // possible preemption
bool others_blocked();         // no other thread can run (before time passes)
void quiet(int d);             // +1 / -1: no preemption in between (must not block)
uint64_t points();

// event log (shared memory set up by the parent process)
void log_attach(char* mem, size_t cap);
void log_raw(const std::string& json);   // appends one JSON object; counts as progress
size_t log_size();
[[noreturn]] void die(int code);         // end the process at once
}
