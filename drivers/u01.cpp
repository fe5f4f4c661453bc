// Driver of U01: threads request the instances of classes in a given order of
// the requests and of the ends of the constructors. One JSON line per command.
#include "u01.h"
#include <chrono>
#include <condition_variable>
#include <iostream>
#include <map>
#include <mutex>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>
#include <unistd.h>
using std::chrono::milliseconds;

struct Event { const char* k; int c; int o; };
struct Step { char kind; int thread; int c; };
// lives longer than every instance
struct World {
    std::mutex m;
    std::condition_variable cv;
    std::vector<Event> log;
    std::map<const void*, int> ids;
    int next = 0, base = classes - 3, needs = 0, fails = 0;
    std::vector<Step> hist;
    std::size_t step = 0;
    bool free = true;
    int running = 0, epoch = 0;
};
static World& w() { static World* x = new World; return *x; }
static thread_local int me = 0;

// waits until it is the turn of this step; after a vain wait everything runs freely
static void turn(char kind, int c) {
    std::unique_lock<std::mutex> l(w().m);
    auto mine = [&] {
        if (w().free || w().step >= w().hist.size()) return true;
        const Step& s = w().hist[w().step];
        return s.kind == kind && s.c == c && (kind == 'e' || s.thread == me);
    };
    if (!w().cv.wait_for(l, milliseconds(40), mine)) w().free = true;
    if (!w().free && w().step < w().hist.size()) w().step++;
    w().cv.notify_all();
}
static void record(const char* k, int n, int o) { w().log.push_back({k, n - w().base + 1, o}); }
static bool inBatch(int n) { return n >= w().base && n < w().base + 3; }

void ctorBegin(int n, const void* self) {
    std::lock_guard<std::mutex> l(w().m);
    w().ids[self] = ++w().next;
    record("begin", n, w().next);
}
void ctorNeeds(int n) {
    if (n % 3 != 0) return;
    for (int k = 1; k < w().needs; k++) request(me % 2, n + k);
}
void ctorEnd(int n, const void* self) {
    turn('e', n - w().base + 1);
    if (!w().hist.empty()) std::this_thread::sleep_for(milliseconds(2));
    std::lock_guard<std::mutex> l(w().m);
    if (n % 3 == 0 && w().fails > 0) {
        w().fails--;
        record("fail", n, w().ids[self]);
        throw std::runtime_error("constructor");
    }
    record("end", n, w().ids[self]);
}
void deleted(int n, const void* self) {
    std::lock_guard<std::mutex> l(w().m);
    if (inBatch(n)) record("del", n, w().ids[self]);
}
Getter getterA(int n) { return getter(n, std::make_index_sequence<classes>()); }
const void* request(int unit, int n) {
    { std::lock_guard<std::mutex> l(w().m); }
    turn('c', n - w().base + 1);
    { std::lock_guard<std::mutex> l(w().m); record("call", n, 0); }
    int value = -1;
    try {
        const void* p = (unit ? getterB : getterA)(n)(value);
        std::lock_guard<std::mutex> l(w().m);
        auto it = w().ids.find(p);
        record("ret", n, it == w().ids.end() || value != n ? 0 : it->second);
        return p;
    } catch (const std::runtime_error&) {
        std::lock_guard<std::mutex> l(w().m);
        record("exc", n, 0);
        throw;
    }
}
namespace { struct Early { Early() { request(0, classes - 2); request(0, classes - 1); } } early; }

static void answer(bool done) {
    std::lock_guard<std::mutex> l(w().m);
    std::cout << "{\"done\":" << (done ? "true" : "false") << ",\"ev\":[";
    const char* sep = "";
    for (auto& e : w().log) { std::cout << sep << "{\"k\":\"" << e.k << "\",\"c\":" << e.c << ",\"o\":" << e.o << "}"; sep = ","; }
    std::cout << "]}" << std::endl;
}
// every thread makes its requests; false when some did not come back
static bool runThreads(const std::vector<std::vector<int>>& prog) {
    w().running = int(prog.size());
    std::vector<std::thread> threads;
    for (std::size_t t = 0; t < prog.size(); t++) {
        std::vector<int> reqs = prog[t];
        threads.emplace_back([t, reqs] {
            me = int(t) + 1;
            for (int c : reqs) try { request(me % 2, w().base + c - 1); } catch (const std::runtime_error&) {}
            std::lock_guard<std::mutex> l(w().m);
            w().running--;
            w().cv.notify_all();
        });
    }
    bool done;
    {
        std::unique_lock<std::mutex> l(w().m);
        done = w().cv.wait_for(l, std::chrono::seconds(20), [] { return w().running == 0; });
        w().free = true;
    }
    for (auto& t : threads) if (done) t.join(); else t.detach();
    if (!done) return false;
    // the objects outlive the threads
    for (auto& reqs : prog) for (int c : reqs) try { request(0, w().base + c - 1); } catch (const std::runtime_error&) {}
    return true;
}
int main() {
    std::string line;
    int batch = 0;
    bool stuck = false, first = true;
    while (std::getline(std::cin, line)) {
        std::istringstream in(line);
        std::string op;
        in >> op;
        if (op == "quit") break;
        if (stuck || (op == "static" ? !first : batch >= batches - 1)) { std::cout << "{\"done\":true,\"ev\":[]}" << std::endl; continue; }
        // static: what the initialisation of the program requested, and some threads afterwards
        // run NEEDS FAILS (the first class needs the others of NEEDS classes and fails FAILS times)
        //     THREADS {N {c}*N}*THREADS {c|e THREAD CLASS}*
        std::vector<std::vector<int>> prog;
        if (op == "static") prog = {{1, 2, 3}, {3, 2, 1}};
        else {
            std::lock_guard<std::mutex> l(w().m);
            w().log.clear();
            w().hist.clear();
            w().base = 3 * batch++;
            w().step = 0;
            w().next = 0;
            w().free = false;
            int threads = 0, n = 0, c = 0;
            in >> w().needs >> w().fails >> threads;
            while (threads-- > 0) { in >> n; prog.emplace_back(); while (n-- > 0) { in >> c; prog.back().push_back(c); } }
            Step s;
            while (in >> s.kind >> s.thread >> s.c) w().hist.push_back(s);
        }
        first = false;
        stuck = !runThreads(prog);
        answer(!stuck);
    }
    std::cout.flush();
    _exit(0);
}
