// C08: each Reference is delivered exactly once with its type, target and direction
#include "core.hpp"
using namespace model;

static Doc base() { Doc d; d.uris = {"http://a/"}; d.aliases = {{"HasComponent", "i=47"}, {"Custom", "ns=1;i=901"}}; return d; }
static Node rt(const char *id, const char *sup) { Node t = node(REFERENCETYPE, id, "1:T"); t.refs.push_back(ref("i=45", sup, false)); return t; }
static const std::vector<std::string> TYPES = {"i=35", "i=41", "i=40", "HasComponent", "Custom", "ns=1;s=non", "i=45", "ns=1;i=901"};
static const std::vector<std::string> TARGETS = {"i=85", "ns=1;i=1", "ns=1;i=3", "ns=1;s=undefined", "i=61"};
struct Fwd { bool has; const char *v; };
static const std::vector<Fwd> FWD = {{false, ""}, {true, "true"}, {true, "false"}, {true, "1"}, {true, "0"}};
static Ref mk(const std::string &t, const std::string &g, const Fwd &f) { Ref r; r.type = t; r.target = g; r.hasFwd = f.has; r.fwd = f.v; return r; }
static void finish(Doc d, std::vector<Node> users, int typesAt) {
    std::vector<Node> t = {rt("ns=1;i=901", "i=47"), rt("ns=1;s=non", "i=32")};
    if(typesAt == 0) { d.nodes = t; for(auto &u : users) d.nodes.push_back(u); }
    else if(typesAt == 1) { d.nodes = users; for(auto &x : t) d.nodes.push_back(x); }
    else { d.nodes = {t[1]}; for(auto &u : users) d.nodes.push_back(u); d.nodes.push_back(t[0]); }
    core::full(d);
}
// single references: every type, target, direction spelling, class
static void single() {
    Node n = node(mc::choose(NCLS, "class"), "ns=1;i=1", "1:N");
    n.refs.push_back(mk(mc::pick(TYPES, "type"), mc::pick(TARGETS, "target"), mc::pick(FWD, "forward")));
    finish(base(), {n}, mc::choose(2, "types"));
}
// lists of references (duplicates, several directions, mixed types)
static void lists(int k) {
    Node n = node(mc::choose(2, "class") ? VARIABLE : OBJECTTYPE, "ns=1;i=1", "1:N");
    for(int i = 0; i < k; i++) {
        const std::string &t = TYPES[mc::choose(mc::tier() ? 8 : 6, "type")];
        const std::string &g = TARGETS[mc::choose(2, "target") * 3];
        n.refs.push_back(mk(t, g, FWD[mc::choose(2, "forward") * 2]));
    }
    finish(base(), {n}, mc::choose(3, "types"));
}
static void lists2() { lists(2); }
static void lists3() { lists(3); }
// references of neighbours do not mix: two nodes with all pairs of lists
static void neighbours() {
    static const std::vector<std::vector<Ref>> L = {{}, {ref("i=35", "i=85", false)}, {ref("Custom", "i=85", false), ref("i=40", "i=61")}, {ref("i=41", "ns=1;i=2"), ref("i=41", "ns=1;i=2")},
        {ref("ns=1;s=non", "ns=1;i=1"), ref("i=47", "ns=1;i=7")}, {ref("i=40", "i=61"), ref("i=40", "i=58")}, {ref("i=40", "i=62", false)}};
    std::vector<Node> v;
    int n = mc::by_tier(2, 3);
    for(int i = 0; i < n; i++) {
        Node x = node(mc::tier() ? mc::choose(NCLS, "class") : mc::pick(std::vector<int>{OBJECT, VARIABLE, METHOD, DATATYPE}, "class"), mc::fmt("ns=1;i=%d", i + 1), "1:N");
        x.refs = mc::pick(L, "list");
        x.emptyRefs = true;
        v.push_back(x);
    }
    finish(base(), v, mc::choose(3, "types"));
}
// many references on one node; a node with several reference sections
static void many() {
    mc::slow(60);
    static const std::vector<int> N = {4, 10, 49, 50, 51, 99, 100, 101, 127, 128, 129, 255, 256, 257, 1000, 3000, 65535, 65536, 65537};
    int n = mc::pick(N, "count"), mix = mc::choose(4, "mix"), cls = n > 60000 ? OBJECT : mc::choose(NCLS, "class");
    Node x = node(cls, "ns=1;i=1", "1:N");
    for(int i = 0; i < n; i++) {
        std::string t = mix == 0 ? "i=35" : mix == 1 ? "i=41" : mix == 2 ? "ns=1;i=901" : TYPES[i % TYPES.size()];
        x.refs.push_back(ref(t, mix == 3 ? mc::fmt("ns=1;s=%d", i / 7 * 7) : mc::fmt("ns=1;i=%d", 100 + i), mix == 3 ? i / 8 % 2 : true));
    }
    if(mix == 3) for(auto &r : x.refs) { r.hasFwd = true; r.fwd = "true"; }
    finish(base(), {x}, mc::choose(3, "types"));
}
// all identifier kinds and lengths of targets, surrounded by text that must not matter
static void targets() {
    static const std::vector<std::string> T = {"i=0", "i=4294967295", "ns=1;i=5", "ns=1;s=x", "ns=1;s=", "ns=1;s=a<b&c>\"d'", "ns=1;g=09087e75-8e5e-499b-954f-f2a9603db28a", "ns=1;b=YWJj", "ns=1;b=", "s=zero ns", "ns=7;i=2"};
    std::string t = mc::choose(2, "long") ? "ns=1;s=" + std::string(mc::pick(std::vector<int>{100, 999, 1024, 5000}, "len"), 'q') : mc::pick(T, "target");
    Node n = node(mc::choose(3, "class") * 2, "ns=1;i=1", "1:N");
    n.refs.push_back(mk(mc::pick(TYPES, "type"), t, FWD[mc::choose(mc::by_tier(1, 5), "forward")]));
    n.refs.push_back(mk(mc::pick(std::vector<std::string>{"i=35", "i=41", "ns=1;i=901"}, "type"), mc::pick(T, "target"), FWD[0]));
    finish(base(), {n}, mc::choose(2, "types"));
}
int main(int argc, char **argv) {
    mc::scenario("single", single);
    mc::scenario("lists-2", lists2);
    mc::scenario("lists-3", lists3);
    mc::scenario("neighbours", neighbours);
    mc::scenario("many", many);
    mc::scenario("targets", targets);
    return mc::run(argc, argv, {"C08", "lists of up to 3 references over the alphabets in checks/C08.cpp, up to 3000 references of one node"});
}
