// C23: undefined reference types make sort fail cleanly, defined ones never do
#include <algorithm>
#include "core.hpp"
using namespace model;

static std::string tid(int i) { return "ns=1;i=" + std::to_string(500 + i); }
static std::string oid(int i) { return "ns=1;i=" + std::to_string(1 + i); }
static Doc base() { Doc d; d.uris = {"u:a"}; return d; }
// imports the stages one after another with a sort after each of them; after every sort the loader has to be
// in the state the model gives for everything imported so far
static void history(const std::vector<std::vector<Node>> &stages, bool sortTwice) {
    core::checkLeak([&] {
        core::Loader l; Oracle o;
        bool r = false;
        for(size_t s = 0; s < stages.size(); s++) {
            Doc d = base(); d.nodes = stages[s];
            std::string x = xml(d);
            if(mc::want_sample()) mc::sample(x);
            if(!l.importXml(x, nullptr, (int)s)) { mc::fail("import-fails", "importFile returned false for a well-formed file"); return; }
            o.import(d, [&](const std::string &u) { return l.ns.get(u); });
            o.sort();
            for(int k = 0; k <= sortTwice; k++) {
                size_t logs = l.logs.size();
                r = l.sort();
                if(r != o.sortOk) { mc::fail(r ? "sort-succeeds" : "sort-fails", mc::fmt("sort after stage %zu returned %d, expected %d (undefined type: %d, cycle: %d)", s, r, o.sortOk, o.unresolved, o.cyclic)); return; }
                if(!r) {
                    bool err = false, named = !o.unresolved;
                    for(size_t i = logs; i < l.logs.size(); i++) {
                        err |= l.logs[i].level == NODESETLOADER_LOGLEVEL_ERROR;
                        // one of the nodes that use an undefined type is named
                        for(auto &n : o.nodes) for(auto &rf : n.refs) {
                            bool known = rf.type.compare(0, 2, "0:") == 0;
                            for(auto &t : o.nodes) known |= t.cls == REFERENCETYPE && t.id == rf.type;
                            size_t c = n.id.find(':');
                            if(!known && l.logs[i].text.find("ns=" + n.id.substr(0, c) + ";" + n.id.substr(c + 1) + ")") != std::string::npos) named = true;
                        }
                    }
                    if(!err) { mc::fail("not-reported", "sort returned false without an error message"); return; }
                    if(!named && !o.cyclic) { mc::fail("node-not-named", "the message names no node that uses an undefined reference type: " + l.logs.back().text); return; }
                    mc::validated();
                }
                else if(!core::compareNodes(l, o, mc::fmt("stage%zu-", s))) return;
            }
            if(!r && o.cyclic) return;                  // later stages cannot repair that
        }
        mc::state(mc::fmt("%d", r));
    });
}
static void run(const std::vector<Node> &nodes, const std::vector<int> &stage, int nst) {
    std::vector<std::vector<Node>> st(nst);
    for(size_t i = 0; i < nodes.size(); i++) st[stage[i]].push_back(nodes[i]);
    // a supertype that comes after a successful sort does not change what was sorted: not judged
    std::set<std::string> def;
    for(int s = 0; s + 1 < nst; s++) {
        for(auto &n : st[s]) def.insert(n.id);
        for(int k = 0; k <= s; k++) for(auto &n : st[k]) if(n.cls == REFERENCETYPE) for(auto &r : n.refs)
            if(r.type == "i=45" && !def.count(r.target) && r.target.compare(0, 3, "ns=") == 0) {
                for(auto &m : nodes) if(m.id == r.target) return;
            }
    }
    history(st, mc::tier() ? mc::flag("sort twice") : nodes.size() & 1);
}
// types with every supertype, using one another, and instances using them, in two stages
static void relations() {
    int T = mc::by_tier(2, 3), O = 2;
    std::vector<Node> v;
    for(int i = 0; i < T; i++) {
        Node t = node(REFERENCETYPE, tid(i), "1:T");
        int s = mc::choose(3 + T, "supertype");
        if(s == 1) t.refs.push_back(ref("i=45", "i=47", false));
        if(s == 2) t.refs.push_back(ref("i=45", "i=32", false));
        if(s > 2) t.refs.push_back(ref("i=45", tid(s - 3), false));
        int u = mc::choose(T + 1 - (T == 3), "uses");
        if(u) t.refs.insert(t.refs.begin(), ref(tid(T == 3 ? (i + u) % 3 : u - 1), "i=" + std::to_string(90 + i)));
        v.push_back(t);
    }
    for(int i = 0; i < O; i++) {
        Node o = node(OBJECT, oid(i), "1:O");
        int u = mc::choose(T + 2 - (T == 3), "uses");
        if(u) o.refs.push_back(ref(tid(u - 1), oid(1 - i), i == 0));
        v.push_back(o);
    }
    if(mc::flag("reversed")) std::reverse(v.begin(), v.end());
    // never imported, first stage, second stage
    std::vector<Node> in; std::vector<int> st;
    for(auto &n : v) {
        int k = n.cls == REFERENCETYPE ? mc::choose(3, "stage of type") : mc::tier() || n.id != oid(0) ? 0 : mc::choose(2, "stage of object");
        if(k == 2) continue;
        in.push_back(n); st.push_back(k);
    }
    run(in, st, 2);
}
// three stages: types arrive one after another in all orders
static void stages() {
    int T = 3;
    std::vector<Node> v;
    for(int i = 0; i < T; i++) {
        Node t = node(REFERENCETYPE, tid(i), "1:T");
        t.refs.push_back(ref("i=45", mc::flag("hierarchical") ? "i=33" : "i=32", false));
        v.push_back(t);
    }
    for(int i = 0; i < 2; i++) {
        Node o = node(i ? VARIABLE : OBJECT, oid(i), "1:O");
        int m = mc::choose(8, "uses");
        for(int k = 0; k < T; k++) if(m >> k & 1) o.refs.push_back(ref(tid(k), "ns=1;i=" + std::to_string(70 + k)));
        if(i && mc::flag("parent")) o.attrs = {{"ParentNodeId", oid(0)}};
        v.push_back(o);
    }
    std::vector<int> st;
    for(auto &n : v) st.push_back(n.cls == REFERENCETYPE ? mc::choose(3, "stage") : mc::choose(mc::by_tier(2, 3), "stage"));
    run(v, st, 3);
}
// chains and fans of undefined and late types of every size
static void sizes() {
    int kind = mc::choose(5, "kind");
    static const std::vector<int> N = {1, 2, 3, 5, 9, 10, 11, 12, 15, 49, 50, 51, 99, 100, 101, 102, 127, 128, 129, 255, 256, 257, 333, 1000, 1001};
    int n = mc::pick(N, "size");
    bool complete = mc::flag("completed"), rev = mc::flag("reversed");
    mc::slow(90);
    std::vector<Node> a, b;
    for(int i = 0; i < n; i++) {
        Node t = node(REFERENCETYPE, tid(i), "1:T"), o = node(OBJECT, "ns=1;s=o" + std::to_string(i), "1:O");
        switch(kind) {
        case 0:   // chain of types, every one used
            t.refs = {ref("i=45", i ? tid(i - 1) : "i=47", false)}; o.refs = {ref(tid(i), "ns=1;s=x" + std::to_string(i))}; (complete ? a : b).push_back(t); a.push_back(o); break;
        case 1:   // every type uses the next one
            t.refs = {ref("i=45", "i=32", false), ref(tid(i + 1), "i=1")}; a.push_back(t); if(i == n - 1 && complete) { Node z = node(REFERENCETYPE, tid(n), "1:Z"); z.refs = {ref("i=45", "i=33", false)}; b.push_back(z); } break;
        case 2:   // types that use one another in a ring
            t.refs = {ref(tid((i + 1) % n), "i=1"), ref("i=45", "i=32", false)}; o.refs = {ref(tid(i), "i=2")}; a.push_back(t); a.push_back(o); break;
        case 3:   // many nodes, one undefined type
            o.refs = {ref(tid(0), "i=2"), ref("i=35", "i=85", false)}; a.push_back(o); if(i == n - 1 && complete) { t = node(REFERENCETYPE, tid(0), "1:T"); t.refs = {ref("i=45", "i=47", false)}; b.push_back(t); } break;
        case 4:   // one node, many undefined types
            if(i == 0) { for(int k = 0; k < n; k++) o.refs.push_back(ref(tid(k), "i=" + std::to_string(3 + k))); a.push_back(o); } t.refs = {ref("i=45", i % 2 ? "i=32" : "i=47", false)}; if(complete || i) b.push_back(t); break;
        }
    }
    if(rev) { std::reverse(a.begin(), a.end()); std::reverse(b.begin(), b.end()); }
    if(b.empty()) history({a}, true);
    else if(kind == 0 && !complete) history({b, a}, true);
    else history({a, b}, true);
}
// supertypes that form rings or are never defined end too
static void rings() {
    int n = 1 + mc::choose(mc::by_tier(3, 4), "types");
    std::vector<Node> v;
    for(int i = 0; i < n; i++) {
        Node t = node(REFERENCETYPE, tid(i), "1:T");
        int s = mc::choose(n + 2, "supertype");
        if(s) t.refs.push_back(ref("i=45", s == n + 1 ? "ns=1;i=999" : tid(s - 1), false));
        if(mc::flag("second supertype")) t.refs.push_back(ref("i=45", "i=47", false));
        v.push_back(t);
    }
    Node o = node(OBJECT, oid(0), "1:O");
    for(int i = 0; i < n; i++) o.refs.push_back(ref(tid(i), "ns=1;i=" + std::to_string(60 + i)));
    v.insert(v.begin() + mc::choose((int)v.size() + 1, "place"), o);
    history({v}, true);
}
// a known type and a use of an identifier that resembles it: other namespace, other kind, prefix, case, digits
static void lookalikes() {
    static const std::vector<std::string> K = {"i=7", "i=47", "i=70", "i=4294967295", "s=7", "s=A", "s=a", "s=AB", "g=00000000-0000-0000-0000-000000000007", "g=00000000-0000-0000-0000-000000000070", "b=QQ==", "b=QUI="};
    Doc d; d.uris = {"u:a", "u:b"};
    std::string def = mc::pick(K, "defined"), use = mc::pick(K, "used");
    int dn = 1 + mc::choose(2, "namespace of definition"), un = 1 + mc::choose(2, "namespace of use");
    bool later = mc::flag("defined in the file after the use"), hier = mc::flag("hierarchical"), both = mc::flag("the node uses the defined one as well");
    Node t = node(REFERENCETYPE, "ns=" + std::to_string(dn) + ";" + def, "1:T");
    t.refs = {ref("i=45", hier ? "i=47" : "i=32", false)};
    Node o = node(OBJECT, "ns=1;i=1", "1:O");
    if(both) o.refs.push_back(ref(t.id, "ns=1;i=90"));
    o.refs.push_back(ref("ns=" + std::to_string(un) + ";" + use, "ns=1;i=91"));
    d.nodes = later ? std::vector<Node>{o, t} : std::vector<Node>{t, o};
    std::string x = xml(d);
    if(mc::want_sample()) mc::sample(x);
    core::checkLeak([&] {
        core::Loader l; Oracle q;
        if(!l.importXml(x)) { mc::fail("import-fails", "importFile returned false for a well-formed file"); return; }
        q.import(d, [&](const std::string &u) { return l.ns.get(u); });
        q.sort();
        bool r = l.sort();
        if(r != q.sortOk) { mc::fail(r ? "lookalike-sort-succeeds" : "lookalike-sort-fails", mc::fmt("sort returned %d; defined %s, used ns=%d;%s", r, t.id.c_str(), un, use.c_str())); return; }
        mc::state(mc::fmt("%d", r));
        if(r) core::compareNodes(l, q, "lookalike-"); else mc::validated();
    });
}
int main(int argc, char **argv) {
    mc::scenario("relations", relations);
    mc::scenario("stages", stages);
    mc::scenario("sizes", sizes);
    mc::scenario("rings", rings);
    mc::scenario("lookalikes", lookalikes);
    return mc::run(argc, argv, {"C23", "all supertype and usage relations among 2 (thorough: 3) custom types and 2 instances, each type missing, in the first or in the second file, sorted after every import once or twice; chains, rings and fans up to 1001; uses of identifiers that resemble a defined type (namespace, kind, prefix, case)"});
}
