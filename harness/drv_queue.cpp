// Driver for block_queue: several threads, calls and returns recorded.
#include "harness.h"
#include "base/block_queue.h"
#include <atomic>
#include <chrono>
#include <thread>
using Q = learnlog::base::block_queue<std::string>;
static Q* q;
static std::vector<std::thread> thr;
static std::atomic<int> busy[64];      // thread -> 1: in put, 2: in take
static std::atomic<int> unfinished{0};

static std::string item(long n) { return n < 0 ? "" : "item " + std::to_string(n) + " longer than any inline buffer"; }
static long value(const std::string& s) { long n = s.size() > 5 ? atol(s.c_str() + 5) : -1; return n >= 0 && s == item(n) ? n : -1; }
static long us() { return (long)(vs::now_ns() / 1000); }

static void step(const std::vector<std::string>& o) {
    const std::string& op = o[1];
    if (op == "yield") { std::this_thread::yield(); return; }
    if (op == "clock") { vs::clock_step(std::stoll(o[2]) * 1000000ll); return; }      // the system clock is set, by so many ms
    if (op == "pause") { std::this_thread::sleep_for(std::chrono::milliseconds(std::stoi(o[2]))); return; }
    long v = o.size() > 2 ? std::stol(o[2]) : 0;
    long d = op == "takefor" ? v : 0;
    long forever = op == "take" ? v : 0;      // a timed take whose time never comes
    if (op == "take") v = 0;
    busy[vs::self()] = op == "put" ? 1 : op == "take" ? 2 : 0;
    Ev("call").s("op", op).i("v", op == "takefor" ? 0 : v).i("d", d * 1000).i("tm", us());
    bool ok = true; long r = 0; std::string x = item(900000);
    if (op == "put") q->enqueue(item(v));
    else if (op == "try") q->enqueue_if_have_room(item(v));
    else if (op == "force") q->enqueue_nowait(item(v));
    else if (op == "take" && forever) { ok = q->dequeue_for(x, forever == 1 ? std::chrono::milliseconds::max() : forever == 2 ? std::chrono::milliseconds(10000000000000ll) : std::chrono::milliseconds(3000000000000ll)); r = ok ? value(x) : 0; }
    else if (op == "take") { q->dequeue(x); r = value(x); }
    else if (op == "takefor") { ok = q->dequeue_for(x, std::chrono::milliseconds(d)); r = ok ? value(x) : 0; }
    else if (op == "size") r = (long)q->size();
    else if (op == "over") r = (long)q->get_override_count();
    else if (op == "rstover") q->reset_override_count();
    else if (op == "disc") r = (long)q->get_discard_count();
    else if (op == "rstdisc") q->reset_discard_count();
    Ev("ret").b("ok", ok).i("r", r).i("tm", us());
    busy[vs::self()] = 0;
}
static void settle(int ms) { settle_us(ms * 1000); Ev("settled").i("tm", us()); }

static void run(const Scenario& sc) {
    q = new Q((size_t)sc.num("cap"));
    for (auto& o : sc.ops) {
        if (o[0] != "0") continue;
        if (o[1] == "start") {
            int n = std::stoi(o[2]);
            unfinished = n;
            for (int k = 1; k <= n; ++k) thr.emplace_back([&sc, k] {
                for (auto& p : sc.ops) if (p[0] == std::to_string(k)) step(p);
                --unfinished;
                Ev("tend");
            });
        } else if (o[1] == "settle") settle(std::stoi(o[2]));
        else if (o[1] == "finish") {       // help whoever waits, then join
            long v = 500000;
            for (int n = 0; n < 400 && unfinished > 0; ++n) {
                settle(1);
                bool put = false, take = false;
                for (int b = 1; b < 64; ++b) { put |= busy[b] == 1; take |= busy[b] == 2; }
                if (put) step({"0", "takefor", "0"});
                if (take) step({"0", n % 3 ? "try" : "force", std::to_string(++v)});
            }
            for (auto& t : thr) t.join();
        } else if (o[1] == "drain") {
            for (int k = 0; k < 200; ++k) { size_t n = q->size(); step({"0", "takefor", "0"}); if (!n) break; }
        } else step(o);
    }
    delete q;
}
int main(int c, char** v) { return harness_main(c, v, run); }
