// B13: loads into different servers at the same time
// THREADS
// LINK: -Wl,--wrap=pthread_mutex_lock -Wl,--wrap=pthread_mutex_unlock -Wl,--wrap=pthread_once
#include "batch.hpp"
#include "threads.hpp"
using namespace model;
using back::under; using back::dataType; using back::field;
using threads::Leg;

// file sets that use the same NodeIds for different things
static const int NSETS = 6, SMALL = NSETS;
static std::vector<Doc> docs(int set) {
    Doc a; a.uris = {set % 2 ? "u:b" : "u:a", set % 2 ? "u:a" : "u:b"};
    auto var = [](const char *id, const char *type, const Elem &e, int rank = -1) { Node v = back::base(VARIABLE, id, "1:V"); v.attrs.push_back({"DataType", type}); if(rank != -1) v.attrs.push_back({"ValueRank", std::to_string(rank)}); v.hasValue = true; v.value = {e}; return v; };
    auto X = [](const Elem &e) { return elem("ExtensionObject", std::vector<Elem>{elem("TypeId", std::vector<Elem>{elem("Identifier", "ns=1;i=5001")}), elem("Body", std::vector<Elem>{e})}); };
    auto T = [](const char *id, const char *super) { Node t = node(REFERENCETYPE, id, "1:T"); t.refs = {ref("i=45", super, false)}; return t; };
    Doc b = a;
    switch(set) {
    case 0: case 1: {   // structures of different layout, values of them, in a second file too
        Node t = dataType("ns=1;i=100", set ? "1:Y" : "1:X"); field(t, "a", set ? "i=1" : "i=12"); field(t, "b", set ? "i=12" : "i=6", !set); field(t, "c", set ? "i=21" : "i=11", false, set);
        Node e = dataType("ns=1;i=101", "1:E", "i=29"); e.def.present = true; Field f; f.attrs = {{"Name", "Q"}, {"Value", set ? "1" : "2"}}; e.def.fields = {f};
        Node u = dataType("ns=1;i=102", "1:U", "ns=1;i=100"); field(u, "d", "ns=1;i=101");
        auto V = [&](const char *n) { std::vector<Elem> k = {elem("a", set ? "true" : "text"), set ? elem("b", "more") : elem("b", std::vector<Elem>{elem("Int32", "7"), elem("Int32", "8")})}; if(!set) k.push_back(elem("c", "2.5")); return elem(n, k); };
        a.nodes = {t, e, u, var("ns=1;i=1", "ns=1;i=100", X(V("X")))};
        b.nodes = {var("ns=1;i=2", "ns=1;i=102", X(V("U"))), var("ns=1;i=3", "ns=1;i=101", elem("Int32", "1"))};
        return {a, b};
    }
    case 2: {           // reference types, nodes that wait for their parents
        Node o = node(OBJECT, "ns=1;i=1", "1:O"), m = node(METHOD, "ns=1;i=2", "1:M");
        o.refs = {ref("i=40", "i=58"), ref("ns=1;i=101", "ns=1;i=3", false)}; m.refs = {ref("i=47", "ns=1;i=1", false)};
        Node v = node(VARIABLE, "ns=1;i=3", "1:V"); v.refs = {ref("i=40", "i=63"), ref("i=35", "i=85", false)};
        a.nodes = {m, o, v, T("ns=1;i=101", "ns=1;i=100"), T("ns=1;i=100", "i=35")};
        return {a};
    }
    case 3: {           // the same type is not hierarchical: the load works; then one that fails
        Node o = under(OBJECT, "ns=1;i=1", "2:O"); o.refs.push_back(ref("ns=1;i=101", "ns=1;i=3"));
        a.nodes = {o, T("ns=1;i=101", "i=32")};
        Node p = under(OBJECT, "ns=1;i=4", "1:P"), q = under(OBJECT, "ns=1;i=5", "1:Q"); p.refs = {ref("i=47", "ns=1;i=5")}; q.refs = {ref("i=47", "ns=1;i=4")};
        b.nodes = {p, q};
        return {a, b};
    }
    case 4: case 5: {   // values of the built-in types
        int k = 10;
        auto add = [&](const char *type, const Elem &e, int rank = -1) { a.nodes.push_back(var(("ns=1;i=" + std::to_string(k++)).c_str(), type, e, rank)); };
        bool s = set == 5;
        add("i=15", elem("ByteString", s ? "QUJDREVGR0g=" : "eHl6")); add("i=13", elem("DateTime", s ? "2020-02-03T04:05:06.7Z" : "1999-12-31T23:59:59+01:00"));
        add("i=14", elem("Guid", std::vector<Elem>{elem("String", s ? "09087e75-8e5e-499b-954f-f2a9603db28a" : "11111111-2222-3333-4444-555555555555")}));
        add("i=11", elem("Double", s ? "-1.25e10" : "INF")); add("i=8", elem("Int64", s ? "-9000000000" : "17"));
        add("i=17", elem("NodeId", std::vector<Elem>{elem("Identifier", s ? "ns=1;s=abc" : "ns=2;i=5")})); add("i=20", elem("QualifiedName", std::vector<Elem>{elem("NamespaceIndex", s ? "2" : "1"), elem("Name", s ? "n" : "mm")}));
        add("i=21", elem("LocalizedText", std::vector<Elem>{elem("Locale", s ? "en" : "de"), elem("Text", s ? "t" : "uuu")}));
        add("i=12", elem("ListOfString", std::vector<Elem>{elem("String", s ? "p" : "qq"), elem("String", s ? "r" : "")}), 1);
        add("i=887", X(elem("EUInformation", std::vector<Elem>{elem("NamespaceUri", s ? "x" : "y"), elem("UnitId", s ? "1" : "2"), elem("DisplayName", std::vector<Elem>{elem("Text", s ? "g" : "h")})})));
        return {a};
    }
    }
    // small ones, for enumerations at a fine grain
    if(set < SMALL + 2) { a.uris.resize(1); a.nodes = {var("ns=1;s=v", "i=15", elem("ByteString", set & 1 ? "QUI=" : "eA=="))}; return {a}; }
    Node t = dataType("ns=1;i=100", "1:X"); field(t, "a", set & 1 ? "i=1" : "i=12");
    a.nodes = {t, var("ns=1;i=1", "ns=1;i=100", X(elem("X", std::vector<Elem>{elem("a", set & 1 ? "true" : "s")})))};
    return {a};
}
// what can be seen of the server after each load
static std::string history(int set, int id) {
    std::string r;
    int f = 0;
    back::Server s;
    std::vector<std::string> xmls;
    for(auto &d : docs(set)) xmls.push_back(xml(d));
    for(auto &x : xmls) {
        r += mc::fmt("load %d\n", s.load(x, false, id * 4 + f++));
        back::Space sp = s.snapshot();
        for(auto &n : sp.nodes) r += n.first + " " + std::to_string(n.second.cls) + " " + n.second.attrs + " " + n.second.value + " " + n.second.dims + "\n";
        for(auto &e : sp.refs) r += std::get<0>(e) + " " + std::get<1>(e) + " " + std::get<2>(e) + "\n";
        for(auto &n : sp.ns) r += n + "\n";
        r += mc::fmt("types %zu errors %d\n", sp.types, s.errors());
    }
    s.del();
    return r;
}
static const std::string &solo(int set) {
    static std::map<int, std::string> m;
    auto it = m.find(set);
    if(it != m.end()) return it->second;
    threads::resetStatic();
    m[set] = history(set, 9);
    return m[set];
}
static std::vector<threads::Counts> counts;
static void play(const std::vector<int> &sets, const std::vector<Leg> &schedule) {
    for(int s : sets) solo(s);
    std::vector<std::string> out(sets.size());
    std::vector<std::function<void()>> bodies;
    for(size_t i = 0; i < sets.size(); i++) bodies.push_back([&, i] { out[i] = history(sets[i], (int)i); });
    counts.clear();
    threads::run(bodies, schedule, &counts);
    if(mc::failed()) return;
    if(threads::poisoned) { mc::fail("memory", "memory that is freed or not allocated is accessed"); return; }
    for(size_t i = 0; i < sets.size(); i++) {
        mc::state(out[i]); mc::validated();
        if(out[i] == solo(sets[i])) continue;
        const std::string &a = out[i], &b = solo(sets[i]);
        size_t k = 0; while(k < a.size() && k < b.size() && a[k] == b[k]) k++;
        size_t l = a.rfind('\n', k); l = l == std::string::npos ? 0 : l + 1;
        mc::fail("result", mc::fmt("file set %d: ", sets[i]) + a.substr(l, 200) + "\nalone: " + b.substr(std::min(l, b.size()), 200));
        return;
    }
}
static threads::Counts size(int set) {
    static std::map<int, threads::Counts> m;
    auto it = m.find(set);
    if(it != m.end()) return it->second;
    play({set}, {});
    threads::Counts c = counts[0];
    c.n[threads::BLOCK] += c.n[threads::STATIC];
    return m[set] = c;
}
static void interrupted() {
    int a = mc::choose(NSETS, "set 1"), b = mc::choose(NSETS, "set 2");
    if(!mc::tier() && b != (a ^ 1)) return;
    if(mc::want_sample()) mc::sample(xml(docs(a)[0]));
    int k = mc::choose((int)size(a).n[threads::BLOCK] + 1, "switch");
    play({a, b}, {{0, threads::BLOCK, k}, {1, threads::BLOCK, -1}});
}
static void both() {
    int a = SMALL + mc::choose(mc::by_tier(2, 4), "set 1"), b = SMALL + mc::choose(mc::by_tier(2, 4), "set 2");
    if(!mc::tier() && a >= b) return;
    int k = mc::choose((int)size(a).n[threads::FUNC] + 1, "switch"), l = mc::choose((int)size(b).n[threads::FUNC] + 1, "switch back");
    play({a, b}, {{0, threads::FUNC, k}, {1, threads::FUNC, l}, {0, threads::FUNC, -1}});
}
// accesses to static storage that is written somewhere are the only ones that do not commute with the other thread's
static void statics() {
    int a = mc::choose(NSETS + 4, "set 1"), b = mc::choose(NSETS + 4, "set 2");
    int n = (int)std::min(size(a).writes ? size(a).statics : 0, 100L), m = (int)std::min(size(b).writes ? size(b).statics : 0, 100L);
    int k = mc::choose(n + 1, "switch"), l = mc::choose(m + 1, "switch back"), j = mc::tier() ? mc::choose(std::min(n - k, 20) + 1, "third switch") : 0;
    play({a, b}, {{0, threads::STATIC, k}, {1, threads::STATIC, l}, {0, threads::STATIC, j ? j : -1}, {1, threads::STATIC, -1}});
}
int main(int argc, char **argv) {
    mc::scenario("interrupted", interrupted);
    mc::scenario("both", both);
    mc::scenario("statics", statics);
    return mc::run(argc, argv, {"B13", "one switch at any basic block of a load, two at any function entry or access to static storage; switches inside of libxml2, libc and the server are not made"});
}
