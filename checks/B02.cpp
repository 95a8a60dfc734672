// B02: all references of a file exist in the server after loading
#include <algorithm>
#include "back.hpp"
using namespace model;
using back::base;

static Doc doc() { Doc d; d.uris = {"u:a", "u:b"}; d.aliases = {{"HasComponent", "i=47"}, {"Org", "i=35"}}; return d; }
static Ref dir(const std::string &type, const std::string &target) {
    switch(mc::choose(3, "direction")) { case 0: { Ref r = ref(type, target); return r; } case 1: return ref(type, target, false); default: { Ref r = ref(type, target); r.hasFwd = true; r.fwd = "true"; return r; } }
}
static void addType(Doc &d, const std::string &id, const std::string &bn, const std::string &parent) { d.nodes.push_back(back::under(REFERENCETYPE, id, bn, parent, "i=45")); }
// one or two references between two nodes of any class, in any order of the nodes
static void pairs() {
    static const std::vector<std::string> T = {"i=47", "i=35", "i=41", "i=37", "HasComponent", "ns=1;i=50", "ns=1;s=nonhier", "i=39", "i=46", "i=49", "i=17603", "i=38"};
    Doc d = doc();
    Node a = base(mc::choose(NCLS, "class"), "ns=1;i=1", "1:A"), b = base(mc::choose(mc::by_tier(3, (int)NCLS), "class"), "ns=1;s=b", "1:B");
    int n = mc::by_tier(8, (int)T.size());
    a.refs.push_back(dir(T[mc::choose(n, "type")], mc::flag("to server") ? "i=2253" : "ns=1;s=b"));
    if(mc::flag("second")) { Node &x = mc::flag("other node") ? b : a; x.refs.push_back(dir(T[mc::choose(4, "type")], &x == &a ? "ns=1;s=b" : "ns=1;i=1")); }
    if(mc::tier() && mc::flag("first in list")) std::rotate(a.refs.begin(), a.refs.end() - 1, a.refs.end());
    d.nodes = mc::flag("reverse") ? std::vector<Node>{b, a} : std::vector<Node>{a, b};
    std::vector<Node> v = d.nodes; d.nodes.clear();
    addType(d, "ns=1;i=50", "1:H", "i=35"); addType(d, "ns=1;s=nonhier", "1:NH", "i=32");
    if(mc::tier() && mc::flag("types first")) d.nodes.insert(d.nodes.end(), v.begin(), v.end()); else d.nodes.insert(d.nodes.begin(), v.begin(), v.end());
    back::full(d);
}
// every reference list of length 3 (4) of one node
static void lists() {
    Doc d = doc();
    Node a = base(mc::choose(mc::by_tier(2, (int)NCLS), "class"), "ns=1;i=1", "1:A");
    static const std::vector<std::pair<std::string, std::string>> R = {{"i=47", "ns=1;i=2"}, {"i=41", "ns=1;i=2"}, {"i=37", "i=78"}, {"i=35", "i=85"}, {"ns=1;i=50", "ns=1;i=3"}, {"i=41", "ns=1;s=absent"}, {"i=47", "ns=1;s=absent"}, {"i=47", "ns=1;i=1"}};
    a.refs.clear();
    int n = mc::by_tier(3, 4);
    for(int i = 0; i < n; i++) {
        int k = mc::choose((int)R.size() + 1, "reference");
        if(k) a.refs.push_back(ref(R[k - 1].first, R[k - 1].second, !mc::flag("inverse")));
    }
    if(mc::flag("parent attribute")) a.attrs.push_back({"ParentNodeId", "ns=1;i=2"});
    addType(d, "ns=1;i=50", "1:H", "i=47");
    d.nodes.push_back(a); d.nodes.push_back(base(OBJECT, "ns=1;i=2", "1:B")); d.nodes.push_back(base(VARIABLE, "ns=1;i=3", "1:C"));
    back::full(d);
}
// ParentNodeId against the inverse references of the node
static void parents() {
    static const std::vector<std::string> P = {"", "i=85", "i=2253", "ns=1;i=2", "ns=1;s=p", "ns=1;i=99"}, T = {"i=35", "i=47", "i=46", "ns=1;i=50", "i=49", "i=37"};
    static const int C[] = {OBJECT, VARIABLE, METHOD, VIEW};
    Doc d = doc();
    Node a = base(C[mc::choose(4, "class")], "ns=1;i=1", "1:A");
    a.refs.clear();
    std::string p = mc::pick(P, "ParentNodeId");
    if(!p.empty()) a.attrs.push_back({"ParentNodeId", p});
    int n = mc::choose(mc::by_tier(3, 4), "references");
    for(int i = 0; i < n; i++) { std::string t = P[1 + mc::choose((int)P.size() - 2, "target")]; a.refs.push_back(ref(T[mc::choose(mc::by_tier(3, (int)T.size()), "type")], t, !mc::by_tier(1, mc::choose(2, "inverse")))); }
    Node q = base(OBJECT, "ns=1;s=p", "1:P");
    if(mc::flag("forward from parent")) q.refs.push_back(ref("i=47", "ns=1;i=1"));
    addType(d, "ns=1;i=50", "1:H", "i=35");
    d.nodes.push_back(base(OBJECT, "ns=1;i=2", "1:B"));
    if(mc::flag("node first")) { d.nodes.push_back(a); d.nodes.push_back(q); } else { d.nodes.push_back(q); d.nodes.push_back(a); }
    back::full(d);
}
// type nodes: the supertype among other hierarchical references
static void types() {
    static const int C[] = {OBJECTTYPE, VARIABLETYPE, DATATYPE, REFERENCETYPE};
    int c = C[mc::choose(4, "class")];
    Doc d = doc();
    Node a = base(c, "ns=1;i=1", "1:A"), b = base(c, "ns=1;i=2", "1:B");
    Ref sup = ref("i=45", mc::flag("below B") ? "ns=1;i=2" : a.refs[0].target, false);
    a.refs.clear();
    static const std::vector<Ref> R = {ref("i=35", "ns=1;s=f", false), ref("i=47", "ns=1;s=c"), ref("i=46", "ns=1;s=c"), ref("ns=1;i=50", "ns=1;s=f", false), ref("i=41", "i=2041"), ref("i=35", "i=86", false), ref("ns=1;s=gen", "ns=1;s=f", false), ref("i=45", "ns=1;i=3"), ref("i=35", "i=90", false)};
    int n = mc::choose(mc::by_tier(3, 4), "others");
    for(int i = 0; i < n; i++) a.refs.push_back(mc::pick(R, "other"));
    a.refs.insert(a.refs.begin() + mc::choose(n + 1, "position"), sup);
    Node e = base(c, "ns=1;i=3", "1:E");
    addType(d, "ns=1;i=50", "1:H", "i=35"); addType(d, "ns=1;s=gen", "1:G", "i=32");
    d.nodes.push_back(base(OBJECT, "ns=1;s=f", "1:F")); d.nodes.push_back(base(VARIABLE, "ns=1;s=c", "1:C")); d.nodes.push_back(e);
    if(mc::flag("reverse")) { d.nodes.push_back(a); d.nodes.push_back(b); } else { d.nodes.push_back(b); d.nodes.push_back(a); }
    back::full(d);
}
// references of a later file to nodes of an earlier one, and to nodes it defines again
static void files() {
    Doc d1 = doc(), d2 = doc();
    addType(d1, "ns=1;i=50", "1:H", "i=35"); addType(d1, "ns=1;i=51", "1:N", "i=32");
    d1.nodes.push_back(base(OBJECT, "ns=1;i=2", "1:B"));
    d1.nodes.push_back(base(VARIABLE, "ns=1;s=v", "1:V"));
    static const std::vector<std::string> T = {"ns=1;i=50", "ns=1;i=51", "i=47", "i=41", "ns=1;i=52"}, X = {"ns=1;i=2", "ns=1;s=v", "i=2253", "ns=2;i=1"};
    Node a = base(mc::choose(NCLS, "class"), "ns=2;i=7", "2:A");
    int n = 1 + mc::choose(2, "references");
    for(int i = 0; i < n; i++) a.refs.push_back(dir(mc::pick(T, "type"), mc::pick(X, "target")));
    if(mc::flag("swap namespaces")) {
        std::swap(d2.uris[0], d2.uris[1]);
        auto sw = [](std::string &s) { if(s.compare(0, 3, "ns=") == 0) s[3] = s[3] == '1' ? '2' : '1'; };
        sw(a.id); for(auto &r : a.refs) { sw(r.type); sw(r.target); }
        addType(d2, "ns=2;i=52", "2:H2", "ns=2;i=50");
    } else addType(d2, "ns=1;i=52", "1:H2", "ns=1;i=50");
    Node b = base(OBJECT, d2.uris[0] == "u:a" ? "ns=2;i=1" : "ns=1;i=1", "B2");
    d2.nodes.push_back(a); d2.nodes.push_back(b);
    back::full({d1, d2});
}
// a star with many references from either end
static void many() {
    static const std::vector<int> N = {1, 9, 10, 11, 49, 50, 51, 99, 100, 101, 250};
    mc::slow(60);
    int n = mc::pick(N, "references");
    bool fromHub = mc::flag("from the hub"), hier = mc::flag("hierarchical"), fwd = !mc::flag("inverse");
    Doc d = doc();
    Node hub = base(OBJECT, "ns=1;s=hub", "1:Hub");
    for(int i = 0; i < n; i++) {
        Node x = base(i & 1 ? VARIABLE : OBJECT, "ns=1;i=" + std::to_string(i + 1), "1:X");
        (fromHub ? hub : x).refs.push_back(ref(hier ? "i=47" : "i=41", fromHub ? x.id : hub.id, fwd));
        d.nodes.push_back(x);
    }
    d.nodes.insert(d.nodes.begin() + (mc::flag("hub last") ? d.nodes.size() : 0), hub);
    back::full(d);
}
// encodings of data types, stated from either end or both
static void encodings() {
    Doc d = doc();
    Node t = base(DATATYPE, mc::flag("string id") ? "ns=1;s=T" : "ns=1;i=1", "1:T");
    t.refs[0].target = "i=22";
    if(mc::flag("definition")) { t.def.present = true; t.def.attrs = {{"Name", "1:T"}}; Field f; f.attrs = {{"Name", "a"}, {"DataType", "i=6"}}; t.def.fields = {f}; }
    std::vector<Node> enc;
    static const char *BN[] = {"Default Binary", "Default XML", "Default JSON"};
    for(int i = 0; i < mc::by_tier(2, 3); i++) {
        Node e = node(OBJECT, mc::flag("string id") ? mc::fmt("ns=1;s=e%d", i) : mc::fmt("ns=1;i=%d", 10 + i), BN[i]);
        e.attrs.push_back({"SymbolicName", "x"});
        e.refs = {ref("i=40", "i=76")};
        int k = mc::choose(4, "stated");
        if(k & 1) e.refs.push_back(ref("i=38", t.id, false));
        if(k & 2) t.refs.push_back(ref("i=38", e.id));
        if(mc::flag("forward to the type")) e.refs.push_back(ref("i=39", t.id));
        enc.push_back(e);
    }
    d.nodes.push_back(t);
    d.nodes.insert(d.nodes.begin() + (mc::flag("encodings last") ? 1 : 0), enc.begin(), enc.end());
    back::full(d);
}
int main(int argc, char **argv) {
    mc::scenario("pairs", pairs);
    mc::scenario("lists", lists);
    mc::scenario("parents", parents);
    mc::scenario("types", types);
    mc::scenario("files", files);
    mc::scenario("many", many);
    mc::scenario("encodings", encodings);
    return mc::run(argc, argv, {"B02", "reference lists of up to 3 (4) references of every type, direction and target; pairs of nodes of all classes; parents by ParentNodeId and references; two files; up to 250 references of a node; encodings"});
}
