// Driver for sequential containers: circular_queue (kind=ring), log_msg_buf and async_msg (kind=msg).
#include "harness.h"
#include "base/circular_queue.h"
#include "base/log_msg_buf.h"
#include "base/async_msg.h"
#include "async_logger.h"
#include <memory>
using namespace learnlog;

// ------------------------------------------------------------------ ring of heap strings
using Ring = base::circular_queue<std::string>;
static std::map<std::string, std::unique_ptr<Ring>> R;
static std::string item(long n) { return "item number " + std::to_string(n) + " with text beyond the inline buffer"; }
static std::string num(const std::string& s) {     // the number of an intact item, or -1
    long n = s.size() > 12 ? atol(s.c_str() + 12) : -1;
    return n >= 0 && s == item(n) ? std::to_string(n) : "-1";
}
static std::string ring_obs() {
    std::string j = "{";
    for (auto& kv : R) {
        const Ring& q = *kv.second;
        size_t n = q.size();
        std::string it = "[";
        if (n <= 4096) for (size_t k = 0; k < n; ++k) it += (k ? "," : "") + num(q.at(k));
        else it += "-2";
        // front() in both forms must be the first item
        if (!q.empty() && n > 0 && (num(q.front()) != num(q.at(0)) || num(kv.second->front()) != num(q.at(0)))) it += ",-3";
        j += (j.size() > 1 ? "," : "") + json_str(kv.first) + ":{\"sz\":" + std::to_string((long)n) + ",\"em\":" + (q.empty() ? "true" : "false")
             + ",\"fu\":" + (q.full() ? "true" : "false") + ",\"it\":" + it + "],\"ov\":" + std::to_string((long)q.override_count()) + "}";
    }
    return j + "}";
}
static void run_ring(const Scenario& sc) {
    for (auto b : {"a", "b", "c"}) R[b].reset(new Ring());
    for (auto& o : sc.ops) {     // op b c n
        const std::string &op = o[0], &b = o[1], &c = o[2];
        long n = std::stol(o[3]);
        if (op == "new") R[b].reset(new Ring((size_t)n));
        else if (op == "anew") *R[b] = Ring((size_t)n);
        else if (op == "def") R[b].reset(new Ring());
        else if (op == "clear") R[b]->clear();
        else if (op == "push") R[b]->push_back(item(n));
        else if (op == "pop") R[b]->pop_front();
        else if (op == "copy") R[b].reset(new Ring(*R[c]));
        else if (op == "asg") *R[b] = *R[c];
        else if (op == "mov") { Ring* x = new Ring(std::move(*R[c])); R[b].reset(x); }
        else if (op == "masg") *R[b] = std::move(*R[c]);
        else if (op == "rst") R[b]->reset_override_count();
        Ev("op").s("op", op).s("b", b).s("c", c).i("n", n).raw("st", ring_obs());
    }
}

// -------------------------------------------------------------------------- messages
struct Slot { std::unique_ptr<base::log_msg_buf> m; std::unique_ptr<base::async_msg> a; };
static std::map<std::string, Slot> M;
static base::log_msg_buf* get(const std::string& s) { return M[s].a ? M[s].a.get() : M[s].m.get(); }
// text of a given length; texts of one length with different `id` differ in one place: the last, the first, the middle byte
static std::string text(long n, const char* kind, long id) {
    std::string s = n ? kind + std::to_string(n) + ":" : "";
    s.resize((size_t)n, 'x');
    for (size_t k = 4; k < s.size(); ++k) s[k] = (char)('a' + (k * 7 + (size_t)n) % 26);
    static const char alt[] = {'A', '\0', '\n', '{', '"'};
    if (n && id % 4) s[id % 4 == 1 ? s.size() - 1 : id % 4 == 2 ? 0 : s.size() / 2] = alt[(id / 4) % 5];
    return s;
}
static std::string content(const base::log_msg_buf* m) {
    if (!m) return "{\"nm\":\"none\",\"txt\":\"\",\"lv\":-1,\"file\":\"\",\"line\":0,\"fn\":\"\",\"us\":0,\"tid\":0}";
    auto us = std::chrono::duration_cast<std::chrono::microseconds>(m->time.time_since_epoch()).count();
    return "{\"nm\":" + json_str(std::string(m->logger_name.data(), m->logger_name.size())) + ",\"txt\":" + json_str(std::string(m->msg.data(), m->msg.size()))
        + ",\"lv\":" + std::to_string((int)m->level) + ",\"file\":" + json_str(m->loc.filename ? m->loc.filename : "") + ",\"line\":" + std::to_string(m->loc.line)
        + ",\"fn\":" + json_str(m->loc.funcname ? m->loc.funcname : "") + ",\"us\":" + std::to_string((long)us) + ",\"tid\":" + std::to_string((long)m->tid) + "}";
}
static std::string all_msgs() {
    std::string j = "{";
    for (auto& kv : M) j += (j.size() > 1 ? "," : "") + json_str(kv.first) + ":" + content(get(kv.first));
    return j + "}";
}
static void run_msg(const Scenario& sc) {
    for (auto b : {"a", "b", "c"}) M[b];
    for (auto& o : sc.ops) {     // op b c nl tl id
        const std::string &op = o[0], &b = o[1], &c = o[2];
        std::string nm, txt; int lv = 0, line = 0; const char *file = "", *fn = ""; long us = 0, tid = 0;
        if (op == "make" || op == "amake") {
            long id = std::stol(o[5]);
            nm = text(std::stol(o[3]), "n", id / 3); txt = text(std::stol(o[4]), "t", id);
            lv = (int)(id % 7); line = (int)id; file = id % 2 ? "one.cpp" : "dir/two.cpp"; fn = id % 3 ? "f" : "gg"; us = 1000 * id + 1; tid = 100 + id;
            std::unique_ptr<std::string> s1(new std::string(nm)), s2(new std::string(txt));
            base::log_msg src(sys_clock::time_point(std::chrono::microseconds(us)), source_loc{file, line, fn}, (level::level_enum)lv,
                              fmt_string_view(s2->data(), s2->size()), fmt_string_view(s1->data(), s1->size()));
            src.tid = (size_t)tid;
            if (op == "make") { M[b].a.reset(); M[b].m.reset(new base::log_msg_buf(src)); }
            else { M[b].m.reset(); M[b].a.reset(new base::async_msg(nullptr, base::async_msg_type::log, src)); }
            std::fill(s1->begin(), s1->end(), '!'); std::fill(s2->begin(), s2->end(), '!');
            src.level = level::off; src.tid = 1; src.loc = source_loc{};
        }
        else if (op == "def") { M[b].a.reset(); M[b].m.reset(new base::log_msg_buf()); }
        else if (op == "adef") { M[b].m.reset(); M[b].a.reset(new base::async_msg()); }
        else if (op == "del") { M[b].m.reset(); M[b].a.reset(); }
        else if (op == "copy") { auto* x = new base::log_msg_buf(*get(c)); M[b].a.reset(); M[b].m.reset(x); }
        else if (op == "mov") { auto* x = new base::log_msg_buf(std::move(*get(c))); M[b].a.reset(); M[b].m.reset(x); }
        else if (op == "asg") *get(b) = *get(c);
        else if (op == "masg") *get(b) = std::move(*get(c));
        else if (op == "amov") { auto* x = new base::async_msg(std::move(*M[c].a)); M[b].m.reset(); M[b].a.reset(x); }
        else if (op == "amasg") *M[b].a = std::move(*M[c].a);
        Ev("op").s("op", op).s("b", b).s("c", c).s("nm", nm).s("txt", txt).i("lv", lv).s("file", file).i("line", line).s("fn", fn).i("us", us).i("tid", tid).raw("st", all_msgs());
    }
}
static void run(const Scenario& sc) {
    if (sc.get("kind") == "ring") run_ring(sc); else run_msg(sc);
}
int main(int c, char** v) { return harness_main(c, v, run); }
