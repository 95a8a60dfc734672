// C25: loaders can be used in several threads at the same time
// THREADS
// LINK: -Wl,--wrap=pthread_mutex_lock -Wl,--wrap=pthread_mutex_unlock -Wl,--wrap=pthread_once
#include "clients.hpp"
#include "threads.hpp"
using namespace model; using namespace clients;
using threads::Leg;

struct Setup { int set; bool service; };
static std::vector<threads::Counts> counts;
// the histories of some loaders, each in a thread of its own, under a schedule; `begun` calls of the last one come first
static void play(const std::vector<Setup> &su, const std::vector<Leg> &schedule, int begun = 0) {
    threads::resetStatic();
    for(auto &x : su) solo(x.set, x.service);
    threads::resetStatic();
    std::vector<std::unique_ptr<Client>> cs;
    std::vector<std::function<void()>> bodies;
    for(size_t i = 0; i < su.size(); i++) { cs.emplace_back(new Client); start(*cs[i], (int)i, su[i].set, su[i].service, false); }
    for(auto &c : cs) bodies.push_back([&c] { while(c->step < STEPS && !mc::failed()) step(*c); });
    Client &last = *cs.back();
    if(begun) bodies.push_back([&] { while(last.step < begun && !mc::failed()) step(last); });
    std::vector<Leg> legs = schedule;
    if(begun) legs.insert(legs.begin(), Leg{(int)su.size(), threads::BLOCK, -1});
    counts.clear();
    threads::run(bodies, legs, &counts);
    if(mc::failed()) return;
    if(threads::poisoned) { mc::fail("memory", "memory that is freed or not allocated is accessed"); return; }
    for(auto &c : cs) {
        mc::state(mc::fmt("%d %s", c->set, c->trace.c_str()));
        mc::validated();
        if(c->trace != solo(c->set, c->service)) { mc::fail("trace", mc::fmt("file set %d: ", c->set) + c->trace + ", alone: " + solo(c->set, c->service)); return; }
    }
}
// the number of points a history passes when it runs alone
static threads::Counts size(int set, bool svc) {
    static std::map<std::pair<int, bool>, threads::Counts> m;
    auto it = m.find({set, svc});
    if(it != m.end()) return it->second;
    play({{set, svc}}, {});
    threads::Counts c = counts[0];
    c.n[threads::BLOCK] += c.n[threads::STATIC];
    return m[{set, svc}] = c;
}
// one history interrupted at every basic block by a complete one
static void interrupted() {
    int a = mc::choose(NSETS, "set 1"), b = mc::choose(NSETS, "set 2");
    bool s = mc::tier() && mc::flag("service"), t = mc::tier() && mc::flag("service 2");
    if(a == 5 && (!mc::tier() || b > 1)) return;
    if(b == 5 && !mc::tier()) return;
    int k = mc::choose((int)size(a, s).n[threads::BLOCK] + 1, "switch");
    play({{a, s}, {b, t}}, {{0, threads::BLOCK, k}, {1, threads::BLOCK, -1}});
}
// the same by a history that has begun
static void begun() {
    int a = NSETS + mc::choose(2, "set 1"), b = NSETS + mc::choose(2, "set 2"), n = 1 + mc::choose(STEPS - 1, "calls");
    int k = mc::choose((int)size(a, false).n[threads::BLOCK] + 1, "switch");
    play({{a, false}, {b, false}}, {{0, threads::BLOCK, k}, {1, threads::BLOCK, -1}}, n);
}
// both are interrupted, at every entry of a function
static void both() {
    int a = NSETS + mc::choose(2, "set 1"), b = NSETS + mc::choose(2, "set 2");
    if(!mc::tier() && a >= b) return;
    int k = mc::choose((int)size(a, false).n[threads::FUNC] + 1, "switch"), l = mc::choose((int)size(b, false).n[threads::FUNC] + 1, "switch back");
    play({{a, false}, {b, false}}, {{0, threads::FUNC, k}, {1, threads::FUNC, l}, {0, threads::FUNC, -1}});
}
// accesses to static storage that is written somewhere are the only ones that do not commute with the steps of the other thread:
// all schedules with up to three switches at them
static void statics() {
    int a = mc::choose(NSETS + 2, "set 1"), b = mc::choose(NSETS + 2, "set 2");
    if(a == 5 || b == 5) return;
    int n = (int)std::min(size(a, false).writes ? size(a, false).statics : 0, 150L), m = (int)std::min(size(b, false).writes ? size(b, false).statics : 0, 150L);
    int k = mc::choose(n + 1, "switch"), l = mc::choose(m + 1, "switch back"), j = mc::tier() ? mc::choose(std::min(n - k, 20) + 1, "third switch") : 0;
    play({{a, false}, {b, false}}, {{0, threads::STATIC, k}, {1, threads::STATIC, l}, {0, threads::STATIC, j ? j : -1}, {1, threads::STATIC, -1}});
}
int main(int argc, char **argv) {
    mc::scenario("interrupted", interrupted);
    mc::scenario("begun", begun);
    mc::scenario("both", both);
    mc::scenario("statics", statics);
    return mc::run(argc, argv, {"C25", "one switch at any basic block of a history, two at any function entry or access to static storage; switches inside of libxml2 and libc are not made"});
}
