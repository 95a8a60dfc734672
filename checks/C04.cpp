// C04: sort fails if and only if the hierarchical references form a cycle
#include "core.hpp"
#include <algorithm>
#include <numeric>
using namespace model;

static Doc base() { Doc d; d.uris = {"http://a/"}; return d; }
static std::string num(int i) { return mc::fmt("ns=1;i=%d", 10 + i); }
// any relation between any two of three nodes, self references included, each stated in up to three ways
static void graphs3() {
    Doc d = base();
    for(int i = 0; i < 3; i++) d.nodes.push_back(node(OBJECT, num(i), "1:N"));
    for(int p = 0; p < 3; p++) for(int c = 0; c < 3; c++) {
        int k = p == c ? mc::choose(mc::by_tier(2, 3), "self") : mc::choose(mc::by_tier(4, 5), "relation");
        if(k == 1 || k == 3 || k == 4) d.nodes[p].refs.push_back(ref("i=35", num(c)));
        if(k == 2 || k == 3) d.nodes[c].refs.push_back(ref("i=35", num(p), false));
        if(k == 4) d.nodes[p].refs.push_back(ref("i=47", num(c)));
    }
    core::full(d);
}
// all directed graphs over four nodes, stated at the parent or the child
static void graphs4() {
    Doc d = base();
    int inv = mc::choose(3, "statement");
    for(int i = 0; i < 4; i++) d.nodes.push_back(node(i % 2 ? VARIABLE : OBJECT, num(mc::tier() ? i : (i * 3) % 4), "1:N"));
    for(int p = 0; p < 4; p++) for(int c = 0; c < 4; c++) if(p != c && mc::flag("edge")) {
        bool f = inv == 0 || (inv == 2 && (p + c) % 2);
        if(f) d.nodes[p].refs.push_back(ref("i=35", d.nodes[c].id)); else d.nodes[c].refs.push_back(ref("i=35", d.nodes[p].id, false));
    }
    core::full(d);
}
// nodes that are not in the file take part in cycles only by stated references
static void undefined() {
    Doc d = base();
    int nd = 2;
    for(int i = 0; i < nd; i++) d.nodes.push_back(node(OBJECT, num(i), "1:N"));
    for(int i = 0; i < nd; i++) for(int t = 0; t < 4; t++) {
        int k = mc::choose(4, "relation");                  // none, forward, inverse, both
        if(k & 1) d.nodes[i].refs.push_back(ref("i=35", num(t)));
        if(k & 2) d.nodes[i].refs.push_back(ref("i=47", num(t), false));
    }
    core::full(d);
}
// which reference types form cycles
static void types() {
    static const std::vector<std::string> T = {"i=33", "i=34", "i=35", "i=36", "i=44", "i=45", "i=46", "i=47", "i=48", "i=49", "i=56", "i=38", "i=41", "i=32", "i=40", "i=37", "ns=1;i=900", "ns=1;i=901", "ns=1;i=902"};
    Node r0 = node(REFERENCETYPE, "ns=1;i=900", "1:H"), r1 = node(REFERENCETYPE, "ns=1;i=901", "1:HH"), r2 = node(REFERENCETYPE, "ns=1;i=902", "1:NH");
    r0.refs.push_back(ref("i=45", "i=47", false)); r1.refs.push_back(ref("i=45", "ns=1;i=900", false)); r2.refs.push_back(ref("i=45", "i=32", false));
    Doc d = base();
    std::vector<Node> v;
    for(int i = 0; i < 3; i++) v.push_back(node(i == 1 ? METHOD : OBJECT, num(i), "1:N"));
    int len = mc::choose(2, "length") + 2;
    for(int i = 0; i < len; i++) {
        std::string t = len == 2 || i < 2 ? mc::pick(T, "type") : std::string("i=35");
        int to = (i + 1) % len;
        if(mc::flag("inverse")) v[to].refs.push_back(ref(t, v[i].id, false)); else v[i].refs.push_back(ref(t, v[to].id));
    }
    if(mc::flag("types first")) d.nodes = {r0, r1, r2, v[0], v[1], v[2]}; else d.nodes = {v[0], v[1], v[2], r1, r0, r2};
    core::full(d);
}
// cycles closed by ParentNodeId
static void parents() {
    Doc d = base();
    int n = 3;
    static const int CL[] = {OBJECT, VARIABLE, METHOD, VIEW};
    for(int i = 0; i < n; i++) {
        Node x = node(CL[mc::choose(mc::by_tier(i ? 1 : 4, i ? 2 : 4), "class")], num(i), "1:N");
        int p = mc::choose(n + 2, "parent");                // n: undefined parent, n + 1: none
        if(p <= n) x.attrs.push_back({"ParentNodeId", num(p)});
        int r = mc::choose(2 * n + 1, "reference");
        if(r < n) x.refs.push_back(ref("i=47", num(r))); else if(r < 2 * n) x.refs.push_back(ref("i=47", num(r - n), false));
        d.nodes.push_back(x);
    }
    core::full(d);
}
// the result does not depend on identifiers or document order
static void identifiers() {
    static const std::vector<std::string> IDS = {"i=1001", "ns=1;i=7", "ns=1;s=a", "ns=1;s=b", "ns=1;g=09087e75-8e5e-499b-954f-f2a9603db28a", "ns=1;b=YWJj", "ns=2;s=a", "ns=1;i=4294967295"};
    std::vector<int> id(3);
    for(int i = 0; i < 3; i++) {
        id[i] = mc::choose((int)IDS.size(), "id");
        for(int j = 0; j < i; j++) if(id[j] == id[i]) return;
    }
    Doc d = base(); d.uris.push_back("http://b/");
    for(int i = 0; i < 3; i++) d.nodes.push_back(node(OBJECT, IDS[id[i]], "1:N"));
    for(int p = 0; p < 3; p++) {
        int k = mc::choose(4, "relation");                  // p -> p + 1 or back
        int c = (p + 1) % 3;
        if(k == 1) d.nodes[p].refs.push_back(ref("i=35", IDS[id[c]]));
        if(k == 2) d.nodes[c].refs.push_back(ref("i=35", IDS[id[p]], false));
        if(k == 3) d.nodes[p].refs.push_back(ref("i=35", IDS[id[c]], false));
    }
    core::full(d);
}
// long cycles and long cycle-free structures: sort terminates with the right answer
static void large() {
    mc::slow(120);
    static const std::vector<int> N = {2, 10, 64, 100, 127, 128, 255, 256, 257, 500, 512, 3000, 65535, 65536, 65537};
    int n = mc::pick(N, "count"), shape = mc::choose(5, "shape");
    int order = mc::choose(2, "reverse");
    if(n > 60000 && (order || shape > 1)) return;
    Doc d = base();
    for(int i = 0; i < n; i++) {
        Node x = node(OBJECT, num(i), "1:N");
        if(shape == 0 || i + 1 < n) { if(shape == 1 && i == n / 2) ; else x.refs.push_back(ref("i=35", num((i + 1) % n))); }    // ring / open chain
        if(shape == 2 && i == n - 1) x.refs.push_back(ref("i=35", num(n / 2), true));                  // tail into a cycle
        if(shape == 3) for(int k = 2; k < 6 && i + k < n; k++) x.refs.push_back(ref("i=47", num(i + k)));
        if(shape == 4 && i == 0 && n > 2) x.refs.push_back(ref("i=35", num(n - 2), false));
        d.nodes.push_back(x);
    }
    if(order) std::reverse(d.nodes.begin(), d.nodes.end());
    core::full(d);
}
// relations stated many times, counts around the sizes of bytes and words
static void repeated() {
    mc::slow(60);
    static const std::vector<int> N = {1, 15, 16, 17, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 1024, 65535, 65536, 65537};
    int n = mc::pick(N, "count"), shape = mc::choose(5, "shape");
    bool forward = mc::flag("forward"), reverse = mc::flag("reverse");
    Doc d = base();
    d.nodes = {node(OBJECT, num(0), "1:N"), node(OBJECT, num(1), "1:N"), node(OBJECT, num(2), "1:N")};
    auto relate = [&](int p, int c) { if(forward) d.nodes[p].refs.push_back(ref("i=35", num(c))); else d.nodes[c].refs.push_back(ref("i=35", num(p), false)); };
    for(int i = 0; i < n; i++) relate(0, 1);
    if(shape == 1) relate(1, 0);                                              // ring of two
    if(shape == 2) { relate(1, 2); relate(2, 0); }                            // ring of three
    if(shape == 3) { relate(2, 1); relate(1, 2); }                            // ring next to it
    if(shape == 4) for(int i = 0; i < n; i++) relate(1, 0);
    if(reverse) std::reverse(d.nodes.begin(), d.nodes.end());
    core::full(d);
}
// relations over two files, sorted once or after each file
static void files() {
    Doc a = base(), b = base();
    for(int i = 0; i < 2; i++) { a.nodes.push_back(node(OBJECT, num(i), "1:N")); b.nodes.push_back(node(OBJECT, num(2 + i), "1:N")); }
    for(int p = 0; p < 4; p++) for(int c = 0; c < 4; c++) if(p != c && ((p < 2) != (c < 2) || p < c)) {
        int k = mc::choose(p < 2 && c < 2 ? 2 : 3, "relation");
        Node &P = p < 2 ? a.nodes[p] : b.nodes[p - 2], &C = c < 2 ? a.nodes[c] : b.nodes[c - 2];
        if(k == 1) P.refs.push_back(ref("i=35", C.id));
        if(k == 2) C.refs.push_back(ref("i=35", P.id, false));
        if(!mc::tier() && p > 1 && c == 1) break;
    }
    core::full(std::vector<Doc>{a, b});
}
int main(int argc, char **argv) {
    mc::scenario("graphs-3", graphs3);
    mc::scenario("graphs-4", graphs4);
    mc::scenario("undefined-nodes", undefined);
    mc::scenario("types", types);
    mc::scenario("parent-node-ids", parents);
    mc::scenario("identifiers", identifiers);
    mc::scenario("large", large);
    mc::scenario("repeated", repeated);
    mc::scenario("files", files);
    return mc::run(argc, argv, {"C04", "all directed graphs of 3 and 4 nodes (statement kinds as enumerated in checks/C04.cpp), larger ones by shape"});
}
