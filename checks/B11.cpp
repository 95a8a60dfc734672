// B11: references are classified by the server's own reference type tree
#include <algorithm>
#include "back.hpp"
using namespace model;
using back::base;

static Node rtype(const std::string &id, const std::string &parent) { return back::under(REFERENCETYPE, id, "1:" + id.substr(id.find('=') + 1), parent, "i=45"); }
// instances that use a reference type in both directions
static void users(Doc &d, const std::string &type, int k) {
    std::string a = mc::fmt("ns=1;i=%d", 1000 + 10 * k), b = mc::fmt("ns=1;s=u%d", k);
    Node p = base(OBJECT, a, "1:P");
    Node c = node(k & 1 ? METHOD : OBJECT, b, "1:C");
    c.refs = {ref(type, a, false)};                      // the only parent, if the type is hierarchical
    Node e = base(VARIABLE, mc::fmt("ns=1;i=%d", 1001 + 10 * k), "1:E");
    e.refs.push_back(ref(type, a));
    d.nodes.push_back(c); d.nodes.push_back(e); d.nodes.push_back(p);
}
static void addNs0Type(back::Server &s, const std::string &id, const std::string &parent, bool abstract) {
    // the user of the server adds a reference type through its API
    auto N = [](const std::string &x) { UA_NodeId n; memset(&n, 0, sizeof n); UA_NodeId_parse(&n, UA_STRING((char *)x.c_str())); return n; };
    UA_NodeId a = N(id), b = N(parent);
    UA_ReferenceTypeAttributes at = UA_ReferenceTypeAttributes_default;
    at.isAbstract = abstract;
    at.displayName = UA_LOCALIZEDTEXT((char *)"", (char *)"");
    UA_StatusCode r = UA_Server_addReferenceTypeNode(s.s, a, b, UA_NODEID_NUMERIC(0, 45), UA_QUALIFIEDNAME(1, (char *)"T"), at, nullptr, nullptr);
    if(r) mc::fail("harness", "the stand-in server refuses " + id);
    UA_NodeId_clear(&a); UA_NodeId_clear(&b);
}
static bool loadAndCompare(back::Server &s, const Doc &d, int slot) {
    back::Space before = s.snapshot();
    if(mc::want_sample()) mc::sample(xml(d));
    bool r = s.load(xml(d), false, slot);
    back::Space after = s.snapshot();
    back::Expect e = back::apply(before, d, after);
    if(r != e.ok) { mc::fail(r ? "load-succeeds" : "load-fails", mc::fmt("loadFile returned %d, expected %d (cyclic=%d unresolved=%d)", r, e.ok, e.cyclic, e.unresolved)); return false; }
    return back::compare(after, e.after);
}
static const std::vector<std::string> ROOTS = {"i=33", "i=32", "i=35", "i=41", "i=47", "i=44", "i=46", "i=37"};
// every tree of 3 (4) reference types in every order, spread over up to two files and the server
static void trees() {
    int n = mc::by_tier(3, 4);
    std::vector<std::string> id, parent; std::vector<int> where;
    static const char *ID[] = {"ns=1;i=1", "ns=1;s=r", "ns=1;i=3", "ns=1;i=400"};
    for(int i = 0; i < n; i++) {
        id.push_back(ID[i]);
        int p = mc::choose(i + mc::by_tier(4, 6), "supertype");
        parent.push_back(p < i ? id[p] : ROOTS[p - i]);
        int lo = p < i ? where[p] : 0;
        where.push_back(lo + mc::choose(3 - lo, "added by"));   // 0 user of the server, 1 first file, 2 second file
    }
    std::vector<int> perm; for(int i = 0; i < n; i++) perm.push_back(i);
    int k = mc::choose(n == 3 ? 6 : 24, "order");
    for(int i = 0; i < k; i++) std::next_permutation(perm.begin(), perm.end());
    bool typesLast = mc::flag("users first"), rev = mc::flag("reverse browse results");
    Doc d[2];
    for(int f = 0; f < 2; f++) {
        d[f].uris = {"u:a"};
        Doc u; u.uris = d[f].uris;
        for(int i = 0; i < n; i++) if(f == 1 || where[i] < 2) users(u, id[i], f * 10 + i);
        Doc t;
        for(int i : perm) if(where[i] == f + 1) t.nodes.push_back(rtype(id[i], parent[i]));
        auto &x = typesLast ? u.nodes : t.nodes, &y = typesLast ? t.nodes : u.nodes;
        d[f].nodes = x; d[f].nodes.insert(d[f].nodes.end(), y.begin(), y.end());
    }
    core::checkLeak([&] {
        back::Server s;
        s.reverseBrowse(rev);
        UA_Server_addNamespace(s.s, "u:a");
        // the server's index of u:a is 2
        for(int i = 0; i < n; i++) if(!where[i]) { auto S = [](std::string x) { if(x.compare(0, 4, "ns=1") == 0) x[3] = '2'; return x; }; addNs0Type(s, S(id[i]), S(parent[i]), false); }
        bool two = false; for(int w : where) two |= w == 2;
        if(!loadAndCompare(s, d[0], 0)) return;
        if(two && !loadAndCompare(s, d[1], 1)) return;
        s.del();
    });
}
// many subtypes of one type, and deep chains, in the server, an earlier file or this file
static void sizes() {
    static const std::vector<int> N = {1, 2, 10, 48, 49, 50, 51, 98, 99, 100, 101, 102, 150, 250};
    mc::slow(60);
    int n = mc::pick(N, "types"), where = mc::choose(3, "added by"), shape = mc::choose(3, "shape"), use = mc::choose(3, "used");
    std::string root = mc::flag("hierarchical") ? "i=35" : "i=41";
    bool rev = mc::flag("reverse order"), brev = mc::flag("reverse browse results");
    // 0: all below the root, 1: a chain, 2: a chain of 5 with all others below its end
    std::vector<std::string> id, parent;
    for(int i = 0; i < n; i++) {
        id.push_back(mc::fmt("ns=1;i=%d", i + 1));
        int p = shape == 0 ? -1 : shape == 1 ? i - 1 : i < 5 ? i - 1 : 4;
        parent.push_back(p < 0 ? root : id[p]);
    }
    Doc d[2]; d[0].uris = d[1].uris = {"u:a"};
    for(int i = 0; i < n; i++) if(where) d[where - 1].nodes.push_back(rtype(id[i], parent[i]));
    if(where && rev) std::reverse(d[where - 1].nodes.begin(), d[where - 1].nodes.end());
    users(d[1], id[use == 0 ? 0 : use == 1 ? n - 1 : n / 2], 0);
    users(d[1], root, 1);
    if(rev) std::rotate(d[1].nodes.begin(), d[1].nodes.end() - 6, d[1].nodes.end());
    core::checkLeak([&] {
        back::Server s;
        s.reverseBrowse(brev);
        UA_Server_addNamespace(s.s, "u:a");
        auto S = [](std::string x) { if(x.compare(0, 4, "ns=1") == 0) x[3] = '2'; return x; };
        if(!where) for(int i = 0; i < n; i++) addNs0Type(s, S(id[i]), S(parent[i]), false);
        if(where == 1 && !loadAndCompare(s, d[0], 0)) return;
        if(!loadAndCompare(s, d[1], 1)) return;
        s.del();
    });
}
// abstract types between, further references of the reference types
static void shapes() {
    Doc d; d.uris = {"u:a"};
    Node a = rtype("ns=1;i=1", mc::pick(ROOTS, "supertype"));
    if(mc::flag("abstract")) a.attrs.push_back({"IsAbstract", mc::flag("one") ? "1" : "true"});
    if(mc::flag("symmetric")) a.attrs.push_back({"Symmetric", "true"});
    Node b = rtype("ns=1;i=2", "ns=1;i=1");
    static const std::vector<Ref> X = {ref("i=46", "ns=1;s=prop"), ref("i=35", "i=91", false), ref("i=45", "ns=1;i=2"), ref("i=41", "i=33", false), ref("ns=1;i=1", "ns=1;s=prop"), ref("i=47", "ns=1;s=prop"),
        // the type itself, and references that are no supertypes though inverse and hierarchical
        ref("i=35", "ns=1;i=1", false), ref("i=45", "ns=1;i=1", false), ref("ns=1;i=1", "ns=1;i=1", false), ref("i=35", "i=47", false), ref("i=47", "i=40", false), ref("i=35", "ns=1;i=2", false)};
    int k = mc::choose(mc::by_tier(3, 4), "further references");
    for(int i = 0; i < k; i++) { Ref r = mc::pick(X, "reference"); a.refs.insert(a.refs.begin() + mc::choose((int)a.refs.size() + 1, "position"), r); }
    d.nodes = {a, b};
    if(mc::flag("subtype first")) std::swap(d.nodes[0], d.nodes[1]);
    Node v = base(VARIABLE, "ns=1;s=prop", "1:Prop");
    Doc u; users(u, "ns=1;i=2", 0); users(u, "ns=1;i=1", 1); u.nodes.push_back(v);
    if(mc::flag("users first")) d.nodes.insert(d.nodes.begin(), u.nodes.begin(), u.nodes.end()); else d.nodes.insert(d.nodes.end(), u.nodes.begin(), u.nodes.end());
    back::full(d);
}
int main(int argc, char **argv) {
    mc::scenario("trees", trees);
    mc::scenario("sizes", sizes);
    mc::scenario("shapes", shapes);
    return mc::run(argc, argv, {"B11", "every tree of 3 (4) reference types below 4 (6) standard ones, added by the server's user, an earlier file or the same file, in every order; up to 250 subtypes of a type and chains of 250; both orders of browse results; further references of reference types"});
}
