// B08: nodes whose parent comes later in the class order are still added
#include <algorithm>
#include "back.hpp"
using namespace model;

// the order in which the backend creates the classes (the documented one): a child whose class comes before its
// parent's needs one attempt more than the parent
static const int ORDER[] = {REFERENCETYPE, DATATYPE, OBJECTTYPE, VARIABLETYPE, OBJECT, METHOD, VARIABLE, VIEW};
static int pos(int c) { for(int i = 0; i < NCLS; i++) if(ORDER[i] == c) return i; return -1; }
static const int INST[] = {OBJECT, METHOD, VARIABLE, VIEW};
static void arrange(Doc &d) {
    switch(mc::choose(mc::by_tier(3, 4), "document order")) {
    case 1: std::reverse(d.nodes.begin(), d.nodes.end()); break;
    case 2: std::stable_sort(d.nodes.begin(), d.nodes.end(), [](const Node &a, const Node &b) { return pos(a.cls) > pos(b.cls); }); break;
    case 3: std::rotate(d.nodes.begin(), d.nodes.begin() + d.nodes.size() / 2, d.nodes.end()); break;
    }
}
static void run(const Doc &d) {
    core::checkLeak([&] {
        back::Server s;
        back::Space before = s.snapshot();
        bool r = s.load(xml(d));
        if(mc::want_sample()) mc::sample(xml(d));
        back::Space after = s.snapshot();
        back::Expect e = back::apply(before, d, after);
        if(r != e.ok) { mc::fail("load-fails", mc::fmt("loadFile returned %d, expected %d", r, e.ok)); return; }
        if(!back::compare(after, e.after)) return;
        std::map<std::string, int> added;
        for(auto &c : s.s->calls) if(c.what.compare(0, 8, "addNode ") == 0 && !c.status && ++added[c.what] > 1) { mc::fail("added-twice", c.what); return; }
        s.del();
    });
}
static std::string id(int i) { return (i & 1 ? "ns=1;s=n" : "ns=1;i=") + std::to_string(i + 1); }
static Node make(int cls, int i, const std::string &parent, int how) {
    static const char *T[] = {"i=47", "i=35", "ns=1;i=5000"};
    Node n = node(cls, id(i), "1:N" + std::to_string(i));
    n.refs = {ref(T[how % 3], parent, false)};
    if(how >= 3) n.attrs.push_back({"ParentNodeId", parent});
    return n;
}
static Doc doc() { Doc d; d.uris = {"u:a"}; d.nodes.push_back(back::under(REFERENCETYPE, "ns=1;i=5000", "1:H", "i=35", "i=45")); return d; }
// every sequence of instance classes as a chain of parents
static void chains() {
    Doc d = doc();
    int n = 2 + mc::choose(mc::by_tier(4, 5), "length");
    std::string parent = "i=85";
    int how = mc::choose(mc::by_tier(2, 4), "reference");
    if(!mc::tier()) how = how ? 3 : 0;
    for(int i = 0; i < n; i++) { d.nodes.push_back(make(INST[mc::choose(4, "class")], i, parent, how + (i % 3 == 2 ? 1 : 0))); parent = id(i); }
    arrange(d);
    run(d);
}
// long chains alternating between classes, up to 9 of them needing another attempt
static void deep() {
    Doc d = doc();
    std::vector<int> per;
    int period = 2 + mc::choose(3, "period");
    for(int i = 0; i < period; i++) per.push_back(INST[mc::choose(4, "class")]);
    int n = mc::choose(mc::by_tier(24, 30), "length") + 1, retries = 0;
    std::string parent = "i=85";
    for(int i = 0; i < n; i++) {
        int c = per[i % period];
        if(i && pos(c) < pos(d.nodes.back().cls)) retries++;
        if(retries > 9) return;
        d.nodes.push_back(make(c, i, parent, 0)); parent = id(i);
    }
    arrange(d);
    run(d);
}
// forests: each node below any earlier one, in any class
static void forests() {
    Doc d = doc();
    int n = mc::by_tier(4, 5);
    for(int i = 0; i < n; i++) { int p = mc::choose(i + 1, "parent"); d.nodes.push_back(make(INST[mc::choose(i || mc::tier() ? 4 : 2, "class")], i, p ? id(p - 1) : "i=2253", 0)); }
    arrange(d);
    run(d);
}
// nodes that can never be added, between ones that can
static void permanent() {
    Doc d = doc();
    int n = mc::by_tier(3, 4);
    for(int i = 0; i < n; i++) {
        int c = INST[mc::choose(3, "class")], p = mc::choose(i + 1, "parent");
        Node x = make(c, i, p ? id(p - 1) : "i=85", 0);
        switch(mc::choose(4, "obstacle")) {
        case 1: x.refs[0].target = "ns=1;i=9999"; break;
        case 2: x.refs.push_back(ref("i=40", "ns=1;s=none")); break;
        case 3: x.refs.push_back(ref("i=40", c == VARIABLE ? "i=58" : "i=63")); break;
        }
        d.nodes.push_back(x);
    }
    if(mc::tier()) arrange(d); else if(mc::flag("reverse")) std::reverse(d.nodes.begin(), d.nodes.end());
    run(d);
}
// many refused nodes: the list of them is grown
static void many() {
    static const std::vector<int> N = {1, 9, 10, 11, 98, 99, 100, 101, 102, 199, 200, 201, 202, 399, 400, 401};
    mc::slow(60);
    int n = mc::pick(N, "nodes"), bad = mc::choose(3, "refused for good"), cls = INST[mc::choose(2, "class")], depth = mc::choose(3, "levels");
    Doc d = doc();
    d.nodes.push_back(make(VARIABLE, 0, "i=85", 0));
    std::string top = id(0);
    for(int l = 0; l < depth; l++) { d.nodes.push_back(make(OBJECT, 2 * l + 1, top, 0)); d.nodes.push_back(make(VARIABLE, 2 * l + 2, id(2 * l + 1), 0)); top = id(2 * l + 2); }
    for(int i = 0; i < n; i++) {
        bool b = bad == 1 ? i % 2 == 0 : bad == 2 ? i < n / 2 : false;
        d.nodes.push_back(make(cls, 10 + i, b ? "ns=1;i=99999" : top, 0));
    }
    if(mc::flag("reverse")) std::reverse(d.nodes.begin(), d.nodes.end());
    run(d);
}
// types below types, in any order, with instances of them
static void types() {
    static const int C[] = {OBJECTTYPE, VARIABLETYPE, DATATYPE, REFERENCETYPE};
    static const char *ROOT[] = {"i=58", "i=63", "i=22", "i=35"};
    int k = mc::choose(4, "class"), n = mc::by_tier(3, 4);
    Doc d = doc();
    for(int i = 0; i < n; i++) { int p = mc::choose(n + 1, "supertype"); if(p - 1 == i) p = 0; Node x = node(C[k], id(i), "1:T"); x.refs = {ref("i=45", p ? id(p - 1) : ROOT[k], false)}; d.nodes.push_back(x); }
    if(k < 2) for(int i = 0; i < n; i++) if(mc::flag("instance")) { Node x = make(k ? VARIABLE : OBJECT, 100 + i, mc::flag("below method") ? "ns=1;s=meth" : "i=85", 0); x.refs.push_back(ref("i=40", id(i))); d.nodes.push_back(x); }
    Node m = make(METHOD, 50, "ns=1;s=var", 0); m.id = "ns=1;s=meth"; d.nodes.push_back(m);
    Node v = make(VARIABLE, 51, "i=85", 0); v.id = "ns=1;s=var"; d.nodes.push_back(v);
    arrange(d);
    run(d);
}
int main(int argc, char **argv) {
    mc::scenario("chains", chains);
    mc::scenario("deep", deep);
    mc::scenario("forests", forests);
    mc::scenario("permanent", permanent);
    mc::scenario("many", many);
    mc::scenario("types", types);
    return mc::run(argc, argv, {"B08", "all chains of up to 5 (6) and forests of 4 (5) instances of all classes; periodic chains of up to 24 (30) nodes needing up to 9 further attempts; refused nodes of three kinds at every place; up to 401 refused nodes; 3 document orders"});
}
