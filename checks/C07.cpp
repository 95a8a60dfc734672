// C07: references are classified by the reference type hierarchy, in any document order
#include "core.hpp"
#include <algorithm>
#include <numeric>
using namespace model;

static Doc base() { Doc d; d.uris = {"http://a/"}; return d; }
static std::vector<int> permutation(int n) {
    std::vector<int> v(n); std::iota(v.begin(), v.end(), 0);
    for(int i = 0; i + 1 < n; i++) std::swap(v[i], v[i + mc::choose(n - i, "perm")]);
    return v;
}
static std::string rid(int i) { static const char *K[] = {"ns=1;i=901", "ns=1;s=zz", "ns=1;i=20", "ns=1;s=a", "ns=1;b=YWJj"}; return i < 5 ? K[i] : mc::fmt("ns=1;i=%d", 1000 + i); }
static Node type(int i) { return node(REFERENCETYPE, rid(i), "1:T"); }
// forests of custom types below hierarchical, non-hierarchical and undefined roots, in every document order, with the users
// anywhere in between
static void forests(int n, bool users) {
    std::vector<Node> v;
    for(int i = 0; i < n; i++) v.push_back(type(i));
    for(int i = 0; i < n; i++) {
        static const std::vector<std::string> R = {"i=33", "i=47", "i=32", "i=41", "ns=1;i=77777"};
        int k = mc::choose((int)(mc::tier() ? R.size() : R.size() - 1) + n, "supertype");
        int roots = (int)(mc::tier() ? R.size() : R.size() - 1);
        if(k < roots) { std::string t = R[mc::tier() || k < 3 ? k : 4]; v[i].refs.push_back(ref("i=45", t, false)); }
        else if(k - roots != i) v[i].refs.push_back(ref("i=45", rid(k - roots), false));      // itself: no supertype
    }
    // cyclic hierarchies of types are checked too (sort fails), by the model
    if(users) {
        Node u = node(OBJECT, "ns=1;i=1", "1:U");
        for(int i = 0; i < n; i++) u.refs.push_back(ref(rid(i), mc::fmt("ns=1;i=%d", 2 + i), i % 2));
        v.push_back(u);
    } else for(int i = 0; i < n; i++) { v[i].refs.push_back(ref(rid((i + 1) % n), "i=85", false)); v[i].refs.push_back(ref("i=46", "ns=1;i=5")); }
    std::vector<int> p = permutation((int)v.size());
    Doc d = base();
    for(int i : p) d.nodes.push_back(v[i]);
    core::full(d);
}
static void forests2() { forests(2, mc::flag("users")); }
static void forests3() { forests(3, true); }
static void forestsUsing() { if(mc::tier()) forests(3, false); else forests(2, false); }
static void forests4() {
    // chains of 4 in all orders, users at every position
    int n = mc::by_tier(4, 5);
    std::vector<int> p = permutation(n);
    std::string root = mc::pick(std::vector<std::string>{"i=47", "i=32"}, "root");
    int at = mc::choose(n + 1, "user at");
    Doc d = base();
    for(int k = 0; k < n; k++) {
        Node t = type(p[k]);
        t.refs.push_back(ref("i=45", p[k] ? rid(p[k] - 1) : root, false));
        d.nodes.push_back(t);
    }
    Node u = node(VARIABLE, "ns=1;i=1", "1:U");
    for(int i = n - 1; i >= 0; i--) u.refs.push_back(ref(rid(i), mc::fmt("ns=1;i=%d", 2 + i), i % 2));
    d.nodes.insert(d.nodes.begin() + at, u);
    core::full(d);
}
// every reference type of namespace 0 that is hierarchical, and the well-known others, used in every class and direction
static void ns0() {
    static const std::vector<int> T = {33, 34, 35, 36, 44, 45, 46, 47, 48, 49, 56, 129, 131, 14476, 15112, 15296, 15297, 16361, 16362, 38,
        31, 32, 37, 39, 40, 41, 51, 52, 53, 54, 117, 3065, 9004, 9005, 9006, 17597, 17603, 15487, 0};
    int t = mc::pick(T, "type"), cls = mc::choose(NCLS, "class");
    bool fwd = mc::flag("forward");
    Node n = node(cls, "ns=1;i=1", "1:U");
    n.refs.push_back(ref(mc::fmt("i=%d", t), "ns=1;i=2", fwd));
    if(mc::flag("second")) n.refs.push_back(ref("i=35", "i=85", false));
    Node rt = type(0); rt.refs.push_back(ref("i=45", mc::fmt("i=%d", t), false));
    Node u = node(OBJECT, "ns=1;i=3", "1:V"); u.refs.push_back(ref(rid(0), "i=85", false));
    Doc d = base();
    if(mc::flag("users first")) d.nodes = {u, n, rt}; else d.nodes = {rt, n, u};
    core::full(d);
}
// more than one supertype, forward HasSubtype statements, other references between types
static void multiple() {
    static const std::vector<std::string> S = {"i=33", "i=32", "ns=1;i=901", "ns=1;s=zz", "i=41"};
    Node a = type(0), b = type(1), c = type(2);
    int k = mc::choose(mc::by_tier(3, 4), "count");
    for(int i = 0; i < k; i++) c.refs.push_back(ref("i=45", mc::pick(S, "supertype"), false));
    a.refs.push_back(ref("i=45", mc::flag("a hierarchical") ? "i=35" : "i=32", false));
    b.refs.push_back(ref("i=45", mc::pick(S, "b"), false));
    if(mc::flag("forward")) a.refs.push_back(ref("i=45", "ns=1;i=20"));
    if(mc::flag("property")) c.refs.push_back(ref("i=46", "i=85", false));
    std::vector<Node> v = {a, b, c};
    Doc d = base();
    Node u = node(OBJECT, "ns=1;i=1", "1:U");
    for(int i = 0; i < 3; i++) u.refs.push_back(ref(rid(i), "ns=1;i=5", false));
    v.push_back(u);
    std::vector<int> p = permutation(4);
    for(int i : p) d.nodes.push_back(v[i]);
    core::full(d);
}
// many types: wide and deep, in document order and reversed
static void counts() {
    mc::slow(60);
    static const std::vector<int> N = {10, 26, 27, 28, 29, 39, 40, 41, 42, 49, 50, 51, 60, 99, 100, 101, 127, 128, 150, 201, 255, 256, 257, 512};
    int n = mc::pick(N, "count"), shape = mc::choose(4, "shape"), order = mc::choose(3, "order");
    Doc d = base();
    std::vector<Node> v;
    for(int i = 0; i < n; i++) {
        Node t = node(REFERENCETYPE, mc::fmt("ns=1;i=%d", 1000 + i), "1:T");
        std::string sup = shape == 0 ? "i=47" : shape == 1 ? "i=32" : shape == 2 ? (i ? mc::fmt("ns=1;i=%d", 999 + i) : "i=33") : i < 2 ? (i ? "i=32" : "i=35") : mc::fmt("ns=1;i=%d", 998 + i);
        t.refs.push_back(ref("i=45", sup, false));
        v.push_back(t);
    }
    Node u = node(OBJECT, "ns=1;i=1", "1:U");
    for(int i = 0; i < n; i++) u.refs.push_back(ref(v[i].id, mc::fmt("ns=1;i=%d", 5000 + i), false));
    if(order == 1) std::reverse(v.begin(), v.end());
    if(order == 2) { std::vector<Node> w; for(int i = 0; i < n; i++) w.push_back(v[(size_t)i % 2 ? n - 1 - i / 2 : i / 2]); v = w; }
    int at = mc::choose(3, "user at");
    v.insert(v.begin() + (at == 0 ? 0 : at == 1 ? n / 2 : n), u);
    d.nodes = v;
    core::full(d);
}
// types and users spread over files
static void files() {
    Node a = type(0), b = type(1);
    a.refs.push_back(ref("i=45", mc::flag("hierarchical") ? "i=47" : "i=32", false));
    b.refs.push_back(ref("i=45", a.id, false));
    Node u = node(OBJECT, "ns=1;i=1", "1:U"), w = node(METHOD, "ns=1;i=3", "1:W");
    u.refs = {ref(a.id, "ns=1;i=2", false), ref(b.id, "ns=1;i=4")};
    w.refs = {ref(b.id, "ns=1;i=1", false)};
    std::vector<Node> v = {a, b, u, w};
    std::vector<int> p = permutation(4);
    std::vector<Doc> docs(3, base());
    int c1 = mc::choose(5, "cut"), c2 = mc::choose(5, "cut");
    if(c2 < c1) return;
    for(int i = 0; i < 4; i++) docs[i < c1 ? 0 : i < c2 ? 1 : 2].nodes.push_back(v[p[i]]);
    core::full(docs);
}
// other loaders before and at the same time, with contradicting definitions
static void others() {
    int nOther = mc::choose(3, "others");
    bool keep = mc::flag("alive");
    std::vector<std::unique_ptr<core::Loader>> o;
    for(int i = 0; i < nOther; i++) {
        o.emplace_back(new core::Loader);
        Doc d = base();
        int k = mc::choose(3, "types");
        for(int j = 0; j < (k == 2 ? 60 : 2); j++) { Node t = type(j); t.refs.push_back(ref("i=45", k == 0 ? "i=33" : "i=32", false)); d.nodes.push_back(t); }
        o.back()->importXml(xml(d), nullptr, 5 + i);
        if(mc::flag("sorted")) o.back()->sort();
        if(!keep) o.back()->del();
    }
    Doc d = base();
    int def = mc::choose(3, "defined");                        // not defined: sort must fail
    Node u = node(OBJECT, "ns=1;i=1", "1:U");
    u.refs = {ref(rid(0), "ns=1;i=2", false), ref(rid(1), "ns=1;i=2")};
    d.nodes.push_back(u);
    for(int j = 0; j < 2; j++) if(def || j) { Node t = type(j); t.refs.push_back(ref("i=45", def == 1 ? "i=33" : "i=32", false)); d.nodes.push_back(t); }
    core::full(d);
}
// a service of the caller: it is asked, told of every type once, supertypes first, and its answers decide
struct Svc {
    NL_ReferenceService s;
    std::set<std::string> hier, nonhier;          // known
    std::vector<std::string> added;
    std::map<std::string, std::string> super;
    int mode;
};
static Svc *S(void *c) { return (Svc *)c; }
static bool isH(void *c, const NL_Reference *r) { mc::OutLib o; return S(c)->hier.count(core::nid(&r->refType)) > 0; }
static bool isNH(void *c, const NL_Reference *r) { mc::OutLib o; return S(c)->nonhier.count(core::nid(&r->refType)) > 0; }
static bool isTD(void *c, const NL_Reference *r) { mc::OutLib o; return core::nid(&r->refType) == "0:i=40"; }
static void add(void *c, const NL_ReferenceTypeNode *n) {
    mc::OutLib o;
    Svc *s = S(c);
    std::string id = core::nid(&n->id);
    s->added.push_back(id);
    bool h = false;
    for(const NL_Reference *r = n->hierachicalRefs; r; r = r->next) if(!r->isForward && s->hier.count(core::nid(&r->target))) h = true;
    if(s->mode == 1) h = !h;                       // the answers of the service decide, whatever they are
    (h ? s->hier : s->nonhier).insert(id);
}
static void service() {
    int n = mc::by_tier(2, 3);
    Svc s; s.mode = mc::choose(2, "mode");
    s.s = {&s, isH, isNH, isTD, add};
    for(const char *t : {"0:i=33", "0:i=35", "0:i=45", "0:i=46", "0:i=47"}) s.hier.insert(t);
    for(const char *t : {"0:i=32", "0:i=41", "0:i=40", "0:i=37"}) s.nonhier.insert(t);
    if(mc::flag("one known before")) s.hier.insert("1:i=5555");
    std::vector<Node> v;
    std::map<std::string, std::string> sup;
    for(int i = 0; i < n; i++) {
        Node t = type(i);
        int k = mc::choose(3 + n, "supertype");
        std::string st = k == 0 ? "i=47" : k == 1 ? "i=32" : k == 2 ? "ns=1;i=5555" : rid(k - 3);
        if(k - 3 == i) st = "";
        if(!st.empty()) { t.refs.push_back(ref("i=45", st, false)); sup[parseId(t.id).str()] = parseId(st).str(); }
        v.push_back(t);
    }
    // no cycles of supertypes here
    for(auto &x : sup) { std::string k = x.second; for(int i = 0; i < 5 && sup.count(k); i++) { k = sup[k]; if(k == x.first) return; } }
    Node u = node(OBJECT, "ns=1;i=1", "1:U");
    for(int i = 0; i < n; i++) u.refs.push_back(ref(rid(i), mc::fmt("ns=1;i=%d", 2 + i), i % 2));
    u.refs.push_back(ref("i=40", "i=61"));
    v.push_back(u);
    std::vector<int> p = permutation((int)v.size());
    int cut = mc::choose(mc::by_tier(3, 4), "second file");
    std::vector<Doc> docs = {base(), base()};
    for(size_t i = 0; i < v.size(); i++) docs[(int)i < cut ? 1 : 0].nodes.push_back(v[p[v.size() - 1 - i]]);
    bool ok, expectFail = false;
    {
        core::Loader l(true, &s.s);
        for(int f = 0; f < 2; f++) {
            std::string x = xml(docs[f]);
            if(mc::want_sample()) mc::sample(x);
            if(!l.importXml(x, nullptr, f)) { mc::fail("import-fails", "import failed"); return; }
        }
        ok = l.sort();
        std::string all; for(auto &a : s.added) all += " " + a;
        mc::state(all);
        for(auto &nd : v) if(nd.cls == REFERENCETYPE) {
            std::string id = parseId(nd.id).str();
            long c = std::count(s.added.begin(), s.added.end(), id);
            if(c != 1) { mc::fail("service-add-count", mc::fmt("addNewReferenceType was called %ld times for %s", c, id.c_str())); return; }
            auto st = sup.find(id);
            if(st != sup.end() && std::count(s.added.begin(), s.added.end(), st->second) &&
               std::find(s.added.begin(), s.added.end(), st->second) > std::find(s.added.begin(), s.added.end(), id)) {
                mc::fail("service-order", id + " was added before its supertype " + st->second + ":" + all); return;
            }
        }
        if((int)s.added.size() != n) { mc::fail("service-add-other", "addNewReferenceType was called for:" + all); return; }
        // delivered lists follow the answers
        struct C { Svc *s; } c{&s};
        for(int cls = 0; cls < NCLS && ok; cls++) NodesetLoader_forEachNode(l.l, (NL_NodeClass)cls, &c, [](void *cc, NL_Node *n) {
            Svc *s = ((C *)cc)->s;
            for(auto *r = n->hierachicalRefs; r; r = r->next) if(!s->hier.count(core::nid(&r->refType))) mc::fail("service-answer", "reference in the hierarchical list, but the service says no: " + core::nid(&r->refType));
            for(auto *r = n->nonHierachicalRefs; r; r = r->next) if(s->hier.count(core::nid(&r->refType))) mc::fail("service-answer", "reference in the non-hierarchical list, but the service says no: " + core::nid(&r->refType));
            if(n->nodeClass == NODECLASS_OBJECT) {
                auto *td = ((NL_ObjectNode *)n)->refToTypeDef;
                if(!td || core::nid(&td->refType) != "0:i=40") mc::fail("service-typedef", "type definition reference missing");
            }
        });
        mc::validated();
        if(!ok) { mc::fail("service-sort", "sort failed although the service knows all types"); return; }
        // direct expectation, independent of the recorded sets: mode 0 equals the hierarchy
        if(s.mode == 0) {
            Oracle o; o.extraHier = {};
            if(s.hier.count("1:i=5555")) { o.extraHier.insert("1:i=5555"); o.extraKnown.insert("1:i=5555"); }
            for(auto &dd : docs) o.import(dd, [&](const std::string &uu) { return l.ns.get(uu); });
            o.sort();
            core::compareNodes(l, o);
        }
    }
    (void)expectFail;
}
int main(int argc, char **argv) {
    mc::scenario("forests-2", forests2);
    mc::scenario("forests-3", forests3);
    mc::scenario("types-using-types", forestsUsing);
    mc::scenario("chains", forests4);
    mc::scenario("namespace-0", ns0);
    mc::scenario("several-supertypes", multiple);
    mc::scenario("counts", counts);
    mc::scenario("files", files);
    mc::scenario("other-loaders", others);
    mc::scenario("own-service", service);
    return mc::run(argc, argv, {"C07", "all forests of up to 3 (thorough: 3 with undefined roots; chains of 5) custom types in all document orders; up to 201 types"});
}
