// C19: loaders do not influence each other, however their calls interleave
#include "clients.hpp"
using namespace model; using namespace clients;

struct Setup { int set; bool service, ext; };
static void play(const std::vector<Setup> &su, const std::vector<int> &order) {
    for(auto &x : su) solo(x.set, x.service);
    core::checkLeak([&] {
        std::vector<std::unique_ptr<Client>> cs;
        for(size_t i = 0; i < su.size(); i++) { cs.emplace_back(new Client); start(*cs[i], (int)i, su[i].set, su[i].service, su[i].ext); }
        auto snap = [](Client &c) { return mc::fmt("%zu %zu %d", c.l ? c.l->logs.size() : 0, c.ns.calls.size(), c.svcCalls); };
        for(int k : order) {
            std::vector<std::string> before;
            for(auto &c : cs) before.push_back(snap(*c));
            step(*cs[k]);
            if(mc::failed()) return;
            for(size_t i = 0; i < cs.size(); i++) if((int)i != k && snap(*cs[i]) != before[i]) { mc::fail("foreign-callback", "a call of one loader called back another one's logger, service or addNamespace"); return; }
        }
        for(auto &c : cs) {
            mc::state(mc::fmt("%d %s", c->set, c->trace.c_str()));
            mc::validated();
            if(c->trace != solo(c->set, c->service)) { mc::fail("trace", mc::fmt("file set %d: ", c->set) + c->trace + ", alone: " + solo(c->set, c->service)); return; }
        }
    });
}
static std::vector<int> interleaving(int n, int steps) {
    std::vector<int> left(n, steps), r;
    while((int)r.size() < n * steps) {
        std::vector<int> can;
        for(int i = 0; i < n; i++) if(left[i]) can.push_back(i);
        int k = mc::pick(can, "next loader");
        left[k]--; r.push_back(k);
    }
    return r;
}
// all interleavings of the complete call sequences of two loaders
static void two() {
    Setup a, b;
    a.set = mc::choose(NSETS, "set 1"); b.set = mc::choose(NSETS, "set 2");
    if(!mc::tier() && a.set == 5 && b.set > 0) return;      // the large set once
    if(!mc::tier() && b.set == 5 && a.set > 0) return;
    int m = mc::choose(mc::by_tier(2, 4), "services");
    a.service = m & 1; b.service = m & 2;
    if(mc::tier() == 0) b.service = false;
    a.ext = b.ext = false;
    play({a, b}, interleaving(2, STEPS));
}
// three loaders: sequences of the same calls in coarse steps (thorough)
static void three() {
    int a = mc::choose(NSETS, "set 1"), b = mc::choose(NSETS, "set 2"), c = mc::choose(NSETS, "set 3");
    // new and first import; second import; sort and deliver; delete
    std::vector<int> order;
    int n = mc::by_tier(2, 3);
    std::vector<int> st(3, 0);
    for(int k : interleaving(3, n)) {
        static const int GROUP[2][3] = {{3, 3, 0}, {2, 2, 2}};
        for(int i = 0; i < GROUP[n - 2][st[k]]; i++) order.push_back(k);
        st[k]++;
    }
    if(mc::tier() && (a > b || b > c)) return;       // interleavings are symmetric
    play({{a, false, false}, {b, false, false}, {c, true, false}}, order);
}
// a sequence of loaders one after another: later ones do not see what earlier ones did
static void sequence() {
    int n = mc::by_tier(3, 4);
    std::vector<Setup> su; std::vector<int> order;
    for(int i = 0; i < n; i++) {
        su.push_back({mc::choose(NSETS, "set"), mc::flag("service"), false});
        int stop = mc::tier() && i == 0 ? 1 + mc::choose(STEPS, "last step") : STEPS;
        for(int k = 0; k < stop; k++) order.push_back(i);
    }
    for(int i = 0; i < n; i++) while(std::count(order.begin(), order.end(), i) < STEPS) order.push_back(i);
    play(su, order);
}
// calls of one loader inside of the callbacks of another one: its logger is not involved, so addNamespace,
// the extension interface, the reference service and the callback of an iteration remain
struct Inside { Client *other; int upto, at, n = 0; bool busy = false; };
static Inside inside;
static bool hookOn;
static void hook() {
    if(inside.busy || !inside.other || inside.n++ != inside.at) return;
    inside.busy = true;
    Client *prev = active;
    while(inside.other->step < inside.upto && !mc::failed()) step(*inside.other);
    active = prev;
    inside.busy = false;
}
// the same file in another encoding and longer than a buffer
static std::string encoded(std::string x, int enc) {
    size_t end = x.find("?>");
    x = (enc ? "<?xml version=\"1.0\" encoding=\"" + std::string(enc == 1 ? "UTF-16" : "ISO-8859-1") + "\"" : x.substr(0, end)) + x.substr(end);
    x.insert(x.rfind("</"), std::string(20000, ' '));
    if(enc != 1) return x;
    std::string r = "\xff\xfe";
    for(char c : x) { r += c; r += '\0'; }
    return r;
}
static void within() {
    int a = mc::choose(NSETS, "set 1"), b = mc::choose(NSETS, "set 2"), from = mc::choose(STEPS, "inner from"), to = from + 1 + mc::choose(STEPS - from, "inner to");
    if(!mc::tier() && (a == 5 || b == 5)) return;
    int at = mc::choose(mc::by_tier(4, 12), "at callback"), kind = mc::choose(2, "iteration");
    bool svc = mc::flag("service");
    int enc = mc::choose(3, "encoding");
    if(kind == 1 && (svc || enc)) return;
    solo(a, svc); solo(b, false);
    core::checkLeak([&] {
        hookOn = false; inside = Inside();
        serviceHook = [] { if(hookOn) hook(); };
        Client x, y;
        start(x, 0, a, svc, false); start(y, 1, b, false, false);
        if(kind == 0) for(auto &d : x.xmls) d = encoded(d, enc);
        x.ns.on = [] { if(hookOn) hook(); };
        while(y.step < from) step(y);
        inside.other = &y; inside.upto = to; inside.at = at;
        if(kind == 0) { hookOn = true; while(x.step < STEPS && !mc::failed()) step(x); hookOn = false; }
        else {
            while(x.step < 4) step(x);
            std::vector<std::string> alone, got;
            for(auto &c : x.l->deliver()) for(auto &d : c.second) alone.push_back(d.dump);
            struct C { Client *x; std::vector<std::string> *got; } c = {&x, &got};
            for(int cls = 0; cls < NCLS; cls++) {
                mc::InLib in;
                size_t before = got.size(), r = NodesetLoader_forEachNode(x.l->l, (NL_NodeClass)cls, &c, [](void *v, NL_Node *n) { mc::OutLib o; C *c = (C *)v; if(c->got->size() > 1000) return; c->got->push_back(core::dumpNode(n, false)); hook(); });
                if(r != got.size() - before) { mc::OutLib o; mc::fail("within-count", mc::fmt("forEachNode returned %zu after %zu calls", r, got.size() - before)); break; }
            }
            if(!mc::failed() && got != alone) mc::fail("within-iteration", mc::fmt("an iteration with calls of another loader in its callbacks delivers %zu nodes, without them %zu, or others", got.size(), alone.size()));
            while(x.step < STEPS && !mc::failed()) step(x);
        }
        inside.other = nullptr;
        while(y.step < STEPS && !mc::failed()) step(y);
        if(mc::failed()) return;
        for(Client *c : {&x, &y}) {
            mc::state(mc::fmt("%d %s", c->set, c->trace.c_str()));
            mc::validated();
            if(c->trace != solo(c->set, c->service)) { mc::fail("trace", mc::fmt("file set %d: ", c->set) + c->trace + ", alone: " + solo(c->set, c->service)); return; }
        }
    });
}
int main(int argc, char **argv) {
    mc::scenario("two", two);
    mc::scenario("three", three);
    mc::scenario("sequence", sequence);
    mc::scenario("within", within);
    return mc::run(argc, argv, {"C19", "all 924 interleavings of the 6 calls of two loaders for all pairs of 7 contradicting file sets, with the internal and the caller's reference service; three loaders in coarser steps"});
}
