// C24: a ParentNodeId without hierarchical reference yields the parent reference
#include <algorithm>
#include <cstring>
#include "core.hpp"
using namespace model;

static const std::vector<int> INST = {OBJECT, VARIABLE, METHOD, VIEW}, OTHER = {OBJECTTYPE, VARIABLETYPE, DATATYPE, REFERENCETYPE};
static Doc base() { Doc d; d.uris = {"u:a", "u:b"}; d.aliases = {{"HC", "i=47"}, {"P", "ns=1;i=1"}}; return d; }
static std::vector<Node> customTypes() {
    Node h = node(REFERENCETYPE, "ns=1;i=500", "1:H"), n = node(REFERENCETYPE, "ns=1;i=501", "1:N");
    h.refs = {ref("i=45", "i=47", false)}; n.refs = {ref("i=45", "i=32", false)};
    return {h, n};
}
static void permute(std::vector<Node> &v) {
    std::vector<int> p(v.size()); int f = 1;
    for(size_t i = 0; i < p.size(); i++) { p[i] = (int)i; f *= (int)i + 1; }
    for(int i = mc::choose(f, "order"); i > 0; i--) std::next_permutation(p.begin(), p.end());
    std::vector<Node> r;
    for(int i : p) r.push_back(v[i]);
    v = r;
}
static Ref ownRef(int k) {
    switch(k) {
    case 1: return ref("i=40", "i=61");                    // type definition
    case 2: return ref("i=37", "i=78");                    // not hierarchical
    case 3: return ref("i=46", "ns=1;i=1", false);         // hierarchical, to the parent
    case 4: return ref("i=35", "ns=1;i=77", false);        // hierarchical, to another node
    case 5: return ref("HC", "ns=1;i=78");                 // hierarchical, forward
    case 6: return ref("ns=1;i=500", "ns=1;i=79");         // hierarchical, defined in the file
    case 7: return ref("ns=1;i=501", "ns=1;i=79");         // not hierarchical, defined in the file
    default: return ref("i=47", "ns=1;i=2");               // to itself
    }
}
static Ref parentRef(int k, const std::string &child) {
    switch(k) {
    case 1: return ref("i=46", child);
    case 2: return ref("i=35", child);
    case 3: return ref("ns=1;i=500", child);
    case 4: return ref("ns=1;i=501", child);               // not hierarchical
    case 5: return ref("i=46", child, false);              // wrong direction
    case 6: return ref("i=47", "ns=1;i=99");               // to another node
    case 7: return ref("i=40", child);                     // type definition
    case 8: return ref("HC", child);
    default: return ref("i=49", child);
    }
}
// one parent and one child: classes, reference lists, in every order
static void pair() {
    Node p = node(OBJECT, "ns=1;i=1", "1:P"), c = node(OBJECT, "ns=1;i=2", "1:C");
    p.cls = mc::choose(mc::by_tier(4, (int)NCLS), "class of parent");
    if(!mc::tier()) { static const int PC[] = {OBJECT, VARIABLE, OBJECTTYPE, METHOD}; p.cls = PC[p.cls]; }
    c.cls = mc::choose(NCLS, "class of child");
    static const std::vector<std::string> PID = {"ns=1;i=1", "", "ns=1;i=55", "i=85", "ns=1;i=2", "P"};
    int k = mc::choose((int)PID.size() + 1, "ParentNodeId");
    if(k) c.attrs = {{"ParentNodeId", PID[k - 1]}};
    int own = mc::choose(9, "reference of child"), own2 = mc::tier() ? mc::choose(9, "second reference of child") : 0;
    if(own) c.refs.push_back(ownRef(own));
    if(own2 && own) c.refs.push_back(ownRef(own2));
    int pr = mc::choose(10, "reference of parent");
    if(pr) p.refs.push_back(parentRef(pr, c.id));
    if(c.cls != OBJECT && c.cls != VARIABLE && p.cls == METHOD && !mc::tier()) return;
    std::vector<Node> v = {p, c};
    bool swap = mc::flag("child first");
    if(swap) std::swap(v[0], v[1]);
    Doc d = base();
    std::vector<Node> t = customTypes();
    bool before = mc::flag("types first");
    if(before) d.nodes = t;
    d.nodes.insert(d.nodes.end(), v.begin(), v.end());
    if(!before) d.nodes.insert(d.nodes.end(), t.begin(), t.end());
    core::full(d);
}
// several children of one parent, chains of parents, the parent with several references
static void family() {
    std::vector<Node> v;
    Node p = node(OBJECT, "ns=1;i=1", "1:P");
    int n = 2;
    for(int i = 0; i < n; i++) {
        Node c = node(mc::pick(INST, "class"), "ns=1;i=" + std::to_string(2 + i), "1:C");
        int par = mc::choose(4, "parent");
        if(par) c.attrs = {{"ParentNodeId", par == 1 ? "ns=1;i=1" : par == 2 ? "ns=1;i=" + std::to_string(3 - i) : "ns=2;s=elsewhere"}};
        int r = mc::choose(4, "reference of parent");
        if(r) p.refs.push_back(parentRef(r == 3 ? 4 : r, c.id));
        if(mc::tier() && mc::flag("own")) c.refs.push_back(ref("i=40", "i=58"));
        v.push_back(c);
    }
    if(mc::flag("grandparent")) p.attrs = {{"ParentNodeId", "i=85"}};
    v.push_back(p);
    permute(v);
    bool two = mc::flag("two files");
    std::vector<Doc> ds = {base()};
    if(two) { ds.push_back(base()); ds[0].nodes = {v[0]}; ds[1].nodes = {v.begin() + 1, v.end()}; }
    else ds[0].nodes = v;
    core::full(ds);
}
// types and nodes whose references are only known at the end
static void late() {
    std::vector<Node> t = customTypes(), v;
    Node p = node(OBJECT, "ns=1;i=1", "1:P"), c = node(mc::pick(INST, "class"), "ns=1;i=2", "1:C");
    c.attrs = {{"ParentNodeId", "ns=1;i=1"}};
    int a = mc::choose(4, "reference of child"), b = mc::choose(4, "reference of parent");
    if(a) c.refs.push_back(ref(a == 1 ? "ns=1;i=500" : a == 2 ? "ns=1;i=501" : "i=47", "ns=1;i=7", false));
    if(b) p.refs.push_back(ref(b == 1 ? "ns=1;i=500" : b == 2 ? "ns=1;i=501" : "i=46", "ns=1;i=2"));
    if(mc::flag("hierarchical below custom")) t[1].refs = {ref("i=45", "ns=1;i=500", false)};
    v = {t[0], t[1], p, c};
    permute(v);
    Doc d = base(), e = base();
    int cut = mc::choose(4, "second file from");
    d.nodes = v;
    if(cut == 0) core::full(d);
    else { d.nodes = {v.begin(), v.begin() + cut}; e.nodes = {v.begin() + cut, v.end()}; core::full(std::vector<Doc>{d, e}); }
}
// identifiers of every kind as parent, with translated namespaces
static void ids() {
    static const std::vector<std::string> ID = {"ns=1;i=1", "ns=2;i=1", "ns=1;s=p", "ns=2;s=1", "ns=1;g=00000001-0002-0003-0405-060708090a0b", "ns=1;b=AQID", "i=1000001", "ns=3;i=1", "ns=1;s="};
    Node p = node(OBJECT, mc::pick(ID, "parent"), "1:P"), c = node(mc::pick(INST, "class"), "ns=1;s=child", "1:C");
    c.attrs = {{"ParentNodeId", mc::pick(ID, "ParentNodeId")}};
    int r = mc::choose(3, "reference");
    if(r) p.refs = {ref(r == 1 ? "i=46" : "i=48", c.id)};
    Doc d = base();
    if(mc::flag("child first")) d.nodes = {c, p}; else d.nodes = {p, c};
    core::full(d);
}
// references of the parent to nodes that resemble the child
static void lookalikes() {
    static const std::vector<std::string> ID = {"ns=1;i=7", "ns=2;i=7", "i=7", "ns=1;s=7", "ns=1;i=70", "ns=2;s=7", "ns=1;b=Nw==", "ns=1;g=00000007-0000-0000-0000-000000000000"};
    Node p = node(OBJECT, "ns=1;i=1", "1:P"), c = node(mc::pick(INST, "class"), mc::pick(ID, "child"), "1:C");
    c.attrs = {{"ParentNodeId", "ns=1;i=1"}};
    int n = 1 + mc::choose(mc::by_tier(2, 3), "references");
    static const std::vector<std::string> T = {"i=35", "i=46", "i=48", "i=49"};
    for(int i = 0; i < n; i++) {
        std::string to = mc::pick(ID, "target");
        for(auto &r : p.refs) if(r.target == to) return;
        p.refs.push_back(ref(T[i], to));
    }
    Doc d = base();
    if(mc::flag("child first")) d.nodes = {c, p}; else d.nodes = {p, c};
    core::full(d);
}
static void many() {
    static const std::vector<int> N = {10, 101, 127, 128, 255, 256, 257, 1001, 3000};
    mc::slow(60);
    int n = mc::pick(N, "children"), kind = mc::choose(3, "kind");
    bool last = mc::flag("parent last");
    Doc d = base();
    Node p = node(OBJECT, "ns=1;i=1", "1:P");
    for(int i = 0; i < n; i++) {
        Node c = node(INST[i % 4], "ns=1;i=" + std::to_string(10 + i), "1:C");
        c.attrs = {{"ParentNodeId", kind == 1 && i ? "ns=1;i=" + std::to_string(9 + i) : "ns=1;i=1"}};
        if(kind == 2) p.refs.push_back(ref(i % 2 ? "i=46" : "i=35", c.id));
        d.nodes.push_back(c);
    }
    d.nodes.insert(last ? d.nodes.end() : d.nodes.begin(), p);
    core::full(d);
}
static void instances() {
    NL_Node n; memset(&n, 0, sizeof n);
    int c = mc::choose(NCLS, "class");
    n.nodeClass = (NL_NodeClass)c;
    mc::validated();
    if(NodesetLoader_isInstanceNode(&n) != isInstance(c)) mc::fail("isInstanceNode", mc::fmt("isInstanceNode of %s", CLS_ELEM[c]));
}
int main(int argc, char **argv) {
    mc::scenario("pair", pair);
    mc::scenario("family", family);
    mc::scenario("late", late);
    mc::scenario("ids", ids);
    mc::scenario("lookalikes", lookalikes);
    mc::scenario("many", many);
    mc::scenario("instances", instances);
    return mc::run(argc, argv, {"C24", "all pairs of parent and child over classes, ParentNodeIds, references of either side and orders; all families of two children; custom reference types in all orders and file splits; sizes up to 3000"});
}
