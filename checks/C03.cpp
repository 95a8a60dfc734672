// C03: sorted delivery never puts a child before one of its parents
#include "core.hpp"
#include "real.hpp"
#include <algorithm>
#include <numeric>
using namespace model;

static Doc base() { Doc d; d.uris = {"http://a/"}; return d; }
static std::vector<int> permutation(int n) {
    std::vector<int> v(n); std::iota(v.begin(), v.end(), 0);
    for(int i = 0; i + 1 < n; i++) std::swap(v[i], v[i + mc::choose(n - i, "perm")]);
    return v;
}
static std::string num(int i) { return mc::fmt("ns=1;i=%d", 10 + i); }
// all acyclic relations over n nodes, each relation stated at the parent, at the child or at both; every order of
// the node elements relative to the identifiers
static void graphs(int n, int kinds) {
    std::vector<Node> v;
    for(int i = 0; i < n; i++) v.push_back(node(OBJECT, num(i), "1:N"));
    std::vector<int> topo = permutation(n);          // topo[0] is a root ...
    for(int a = 0; a < n; a++) for(int b = a + 1; b < n; b++) {
        int p = topo[a], c = topo[b];
        int k = mc::choose(kinds, "relation");
        if(k == 1 || k == 3) v[p].refs.push_back(ref("i=35", num(c)));
        if(k == 2 || k == 3) v[c].refs.push_back(ref("i=47", num(p), false));
    }
    Doc d = base(); d.nodes = v;
    core::full(d);
}
static void graphs3() {
    int order = mc::choose(2, "reverse");
    std::vector<Node> v;
    for(int i = 0; i < 3; i++) v.push_back(node(mc::choose(3, "class") * 2, num(i), "1:N"));
    std::vector<int> topo = permutation(3);
    for(int a = 0; a < 3; a++) for(int b = a + 1; b < 3; b++) {
        int k = mc::choose(4, "relation");
        if(k & 1) v[topo[a]].refs.push_back(ref("i=35", num(topo[b])));
        if(k & 2) v[topo[b]].refs.push_back(ref("i=47", num(topo[a]), false));
    }
    if(order) std::reverse(v.begin(), v.end());
    Doc d = base(); d.nodes = v;
    core::full(d);
}
static void graphs4() { graphs(4, 3); }
static void graphs5() { if(mc::tier()) graphs(5, 3); }
// chains that lead through nodes of other classes or nodes that are not in the file
static void through() {
    int n = 5;
    std::vector<int> kind(n);
    std::vector<int> topo = permutation(n);
    Doc d = base();
    std::vector<Node> v(n);
    for(int i = 0; i < n; i++) kind[i] = mc::choose(i == 0 || i == n - 1 ? 1 : 3, "kind");     // along the chain
    for(int i = 0; i < n; i++) {
        int cls = kind[i] == 0 ? OBJECT : kind[i] == 1 ? VARIABLE : OBJECT;
        v[i] = node(cls, num(topo[i]), "1:N");
    }
    for(int i = 0; i + 1 < n; i++) {
        bool canP = kind[i] != 2, canC = kind[i + 1] != 2;
        if(!canP && !canC) continue;
        bool atParent = canP && canC ? mc::flag("at parent") : canP;
        if(atParent) v[i].refs.push_back(ref("i=35", v[i + 1].id)); else v[i + 1].refs.push_back(ref("i=35", v[i].id, false));
    }
    std::vector<std::pair<int, int>> o;
    for(int i = 0; i < n; i++) if(kind[i] != 2) o.push_back({topo[i], i});
    std::sort(o.begin(), o.end());
    for(auto &x : o) d.nodes.push_back(v[x.second]);
    core::full(d);
}
// identifiers of all kinds: the order must not depend on how identifiers compare
static void identifiers() {
    static const std::vector<std::string> IDS = {"i=1001", "ns=1;i=7", "ns=1;s=a", "ns=1;s=b", "ns=1;s=aa", "ns=1;g=09087e75-8e5e-499b-954f-f2a9603db28a", "ns=1;g=19087e75-8e5e-499b-954f-f2a9603db28b",
                                                 "ns=1;b=YWJj", "ns=1;b=YQ==", "ns=2;i=3", "ns=2;s=a", "ns=1;i=4294967295"};
    int n = 4;
    std::vector<int> id(n);
    for(int i = 0; i < n; i++) {
        id[i] = mc::choose((int)IDS.size(), "id");
        for(int j = 0; j < i; j++) if(id[j] == id[i]) return;
    }
    int shape = mc::choose(mc::by_tier(2, 4), "shape");
    Doc d = base(); d.uris.push_back("http://b/");
    for(int i = 0; i < n; i++) d.nodes.push_back(node(OBJECT, IDS[id[i]], "1:N"));
    auto E = [&](int p, int c, bool fwd) { if(fwd) d.nodes[p].refs.push_back(ref("i=35", IDS[id[c]])); else d.nodes[c].refs.push_back(ref("i=35", IDS[id[p]], false)); };
    switch(shape) {
    case 0: E(3, 2, false); E(2, 1, false); E(1, 0, false); break;
    case 1: E(3, 1, true); E(3, 2, false); E(1, 0, true); E(2, 0, false); break;
    case 2: E(2, 0, true); E(3, 0, true); E(3, 1, false); break;
    case 3: E(1, 0, false); E(3, 2, true); E(2, 1, false); break;
    }
    core::full(d);
}
// relations given by ParentNodeId only, mixed with references
static void parents() {
    int n = 4;
    std::vector<int> topo = permutation(n);
    Doc d = base();
    std::vector<Node> v(n);
    static const int CL[] = {OBJECT, VARIABLE, METHOD, VIEW};
    int uniform = mc::choose(2, "uniform");
    for(int i = 0; i < n; i++) v[topo[i]] = node(uniform ? OBJECT : CL[topo[i] == 2 ? 1 : 0], num(topo[i]), "1:N");
    for(int i = 1; i < n; i++) {
        int p = mc::choose(i + 1, "parent");         // i: none
        if(p == i) continue;
        int how = mc::choose(4, "how");
        Node &c = v[topo[i]], &par = v[topo[p]];
        if(how == 0 || how == 3) c.attrs.push_back({"ParentNodeId", par.id});
        if(how == 1) c.refs.push_back(ref("i=47", par.id, false));
        if(how == 2 || how == 3) par.refs.push_back(ref("i=46", c.id));
    }
    d.nodes = v;
    core::full(d);
}
// every insertion order of the search tree, with a chain or a tree over the nodes
static void insertion() {
    int n = mc::by_tier(7, 8);
    std::vector<int> p = permutation(n);
    int shape = mc::choose(2, "shape");
    Doc d = base();
    for(int i = 0; i < n; i++) {
        Node x = node(VARIABLE, num(p[i]), "1:N");
        if(shape == 0 && p[i] > 0) x.refs.push_back(ref("i=47", num(p[i] - 1), false));
        if(shape == 1) { int a = p[i]; for(int c : {(a + 3) * 2 % 17, a + n / 2}) if(c > a && c < n) x.refs.push_back(ref("i=47", num(c))); }
        d.nodes.push_back(x);
    }
    core::full(d);
}
// many nodes: chains, trees and layers, written forwards, backwards and shuffled
static void large() {
    mc::slow(120);
    static const std::vector<int> N = {50, 127, 128, 129, 500, 2000};
    int n = mc::pick(N, "count"), shape = mc::choose(4, "shape"), order = mc::choose(4, "order"), ids = mc::choose(3, "ids");
    std::vector<Node> v;
    auto id = [&](int i) { int k = order == 3 ? (int)((long)i * 7919 % 10007) : i; return ids == 0 ? mc::fmt("ns=1;i=%d", k) : ids == 1 ? mc::fmt("ns=1;s=n%d", k) : (i % 2 ? mc::fmt("ns=1;s=n%d", k) : mc::fmt("ns=1;i=%d", k)); };
    for(int i = 0; i < n; i++) {
        Node x = node(OBJECT, id(i), "1:N");
        int p = shape == 0 ? i - 1 : shape == 1 ? (i - 1) / 2 : shape == 2 ? i - 40 : i - 1 - i % 5;
        if(i > 0 && p >= 0) { if(i % 3 == 0) v[p].refs.push_back(ref("i=35", id(i))); else x.refs.push_back(ref("i=35", id(p), false)); }
        if(shape == 3 && i > 10) x.refs.push_back(ref("i=48", id(i - 7), false));
        v.push_back(x);
    }
    if(order == 1) std::reverse(v.begin(), v.end());
    if(order == 2) { std::vector<Node> w; for(int i = 0; i < n; i++) w.push_back(v[(size_t)((long)i * 4999 % n)]); std::set<std::string> s; for(auto &x : w) s.insert(x.id); if((int)s.size() == n) v = w; }
    Doc d = base(); d.nodes = v;
    core::full(d);
}
// numbers of relations of one node around the sizes of bytes and words: many parents, many children, one relation stated many times
static void fans() {
    mc::slow(120);
    static const std::vector<int> N = {2, 15, 16, 17, 127, 128, 129, 254, 255, 256, 257, 258, 511, 512, 513, 1000, 1024, 32768, 65535, 65536, 65537};
    int n = mc::pick(N, "count"), shape = mc::choose(4, "shape"), order = mc::choose(2, "order");
    bool forward = mc::flag("forward");
    if(n > 2000 && shape == 1 && !mc::tier()) return;
    Doc d = base();
    auto relate = [&](Node &p, Node &c) { if(forward) p.refs.push_back(ref("i=35", c.id)); else c.refs.push_back(ref("i=35", p.id, false)); };
    Node hub = node(OBJECT, shape == 1 ? num(900000) : num(1), "1:N");
    std::vector<Node> v;
    if(shape < 2) for(int i = 0; i < n; i++) { Node x = node(OBJECT, num(100 + i), "1:N"); if(shape == 0) relate(x, hub); else relate(hub, x); v.push_back(x); }
    else { Node x = node(OBJECT, num(100), "1:N"), y = node(OBJECT, num(50), "1:N"); for(int i = 0; i < n; i++) relate(x, hub); if(shape == 3) { relate(y, hub); relate(x, y); } v = {x, y}; }
    if(order) v.push_back(hub); else v.insert(v.begin(), hub);
    d.nodes = v;
    core::full(d);
}
// classes of reference types: only hierarchical ones order
static void types() {
    static const std::vector<std::string> T = {"i=33", "i=34", "i=35", "i=36", "i=44", "i=45", "i=46", "i=47", "i=48", "i=49", "i=56", "i=38", "i=41", "i=32", "ns=1;i=900", "ns=1;i=901", "ns=1;i=902"};
    int cls = mc::choose(NCLS, "class");
    Node r0 = node(REFERENCETYPE, "ns=1;i=900", "1:H"), r1 = node(REFERENCETYPE, "ns=1;i=901", "1:HH"), r2 = node(REFERENCETYPE, "ns=1;i=902", "1:NH");
    r0.refs.push_back(ref("i=45", "i=47", false)); r1.refs.push_back(ref("i=45", "ns=1;i=900", false)); r2.refs.push_back(ref("i=45", "i=32", false));
    Doc d = base();
    std::vector<Node> v = {node(cls, num(1), "1:A"), node(cls, num(2), "1:B"), node(cls, num(3), "1:C")};
    for(int i = 0; i < 2; i++) { std::string t = mc::pick(T, "type"); if(mc::flag("forward")) v[i + 1].refs.push_back(ref(t, v[i].id)); else v[i].refs.push_back(ref(t, v[i + 1].id, false)); }
    if(mc::flag("types first")) d.nodes = {r0, r1, r2, v[0], v[1], v[2]}; else d.nodes = {v[0], v[1], v[2], r1, r0, r2};
    core::full(d);
}
// the nodes arrive in two files with a sort after each of them: every sort has to give a correct order of all nodes
static void incremental() {
    int n = mc::by_tier(3, 4);
    std::vector<int> topo = permutation(n);
    std::vector<Node> v(n);
    std::vector<int> stage(n);
    for(int i = 0; i < n; i++) v[topo[i]] = node(OBJECT, num(topo[i]), "1:N");
    for(int i = 1; i < n; i++) {
        int k = mc::choose(1 + 4 * i, "relation");
        if(!k) continue;
        Node &c = v[topo[i]], &p = v[topo[(k - 1) / 4]];
        int how = (k - 1) % 4;
        if(how == 0 || how == 3) c.attrs.push_back({"ParentNodeId", p.id});
        if(how == 1 || how == 3) c.refs.push_back(ref("i=47", p.id, false));
        if(how == 2) p.refs.push_back(ref("i=35", c.id));
    }
    for(int i = 0; i < n; i++) stage[i] = mc::choose(2, "file");
    bool reverse = mc::flag("reversed");
    if(reverse) { std::reverse(v.begin(), v.end()); std::reverse(stage.begin(), stage.end()); }
    core::checkLeak([&] {
        core::Loader l; Oracle o;
        for(int s = 0; s < 2; s++) {
            Doc d = base();
            for(int i = 0; i < n; i++) if(stage[i] == s) d.nodes.push_back(v[i]);
            if(!l.importXml(xml(d), nullptr, s)) { mc::fail("import-fails", "importFile returned false for a well-formed file"); return; }
            o.import(d, [&](const std::string &u) { return l.ns.get(u); });
            o.sort();
            bool r = l.sort();
            if(!core::compare(l, o, r, mc::fmt("stage%d-", s))) return;
        }
    });
}
// the repository's own documents with their nodes in other orders
static void repositoryDocuments() {
    auto &l = real::files(mc::by_tier(60000, 1000000));
    int a = mc::choose((int)l.size(), "file");
    Doc d = l[a].doc; mc::input(l[a].name);
    mc::slow(60);
    size_t n = d.nodes.size();
    if(!n) return;
    switch(mc::choose(5, "order")) {
    case 0: break;
    case 1: std::reverse(d.nodes.begin(), d.nodes.end()); break;
    case 2: std::rotate(d.nodes.begin(), d.nodes.begin() + mc::choose((int)std::min<size_t>(n, mc::by_tier(12, 100)), "rotation") * n / std::min<size_t>(n, mc::by_tier(12, 100)), d.nodes.end()); break;
    case 3: std::stable_sort(d.nodes.begin(), d.nodes.end(), [](const Node &x, const Node &y) { return x.id > y.id; }); break;
    case 4: std::stable_sort(d.nodes.begin(), d.nodes.end(), [](const Node &x, const Node &y) { return x.cls > y.cls; }); break;
    }
    if(mc::flag("references reversed")) for(auto &k : d.nodes) std::reverse(k.refs.begin(), k.refs.end());
    core::full(d);
}
int main(int argc, char **argv) {
    mc::scenario("graphs-3", graphs3);
    mc::scenario("graphs-4", graphs4);
    mc::scenario("graphs-5", graphs5);
    mc::scenario("through-other-nodes", through);
    mc::scenario("identifiers", identifiers);
    mc::scenario("parent-node-ids", parents);
    mc::scenario("insertion-orders", insertion);
    mc::scenario("types", types);
    mc::scenario("incremental", incremental);
    mc::scenario("large", large);
    mc::scenario("fans", fans);
    mc::scenario("repository-documents", repositoryDocuments);
    return mc::run(argc, argv, {"C03", "all acyclic graphs of up to 5 nodes (kinds of statements as enumerated in checks/C03.cpp), all relations of three nodes (thorough: four) that arrive in two files with a sort after each, larger ones by shape; the documents in the repository with nodes and references in other orders"});
}
