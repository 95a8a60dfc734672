// C09: a NodeId defined twice is delivered once, intact, and reported
#include "core.hpp"
#include <algorithm>
using namespace model;

static Doc base() { Doc d; d.uris = {"http://a/"}; return d; }
static const char *DUP = "ns=1;i=50";
// the oracle says what is delivered for every choice of the definition that is kept
static void judge(const std::vector<Doc> &docs) {
    // positions of the definitions of duplicate ids
    core::checkLeak([&] {
        core::Loader l;
        std::vector<std::pair<size_t, size_t>> defs;
        bool unknown = false;
        std::set<std::string> defined;
        for(size_t f = 0; f < docs.size(); f++) {
            std::string x = xml(docs[f]);
            if(mc::want_sample()) mc::sample(x);
            if(!l.importXml(x, nullptr, (int)f)) { mc::fail("import-fails", "importFile returned false for a well-formed file"); return; }
            for(size_t i = 0; i < docs[f].nodes.size(); i++) {
                auto &n = docs[f].nodes[i];
                if(n.id == DUP) { defs.push_back({f, i}); for(auto &r : n.refs) if(parseId(r.type).ns && !defined.count(r.type)) unknown = true; }
                if(n.cls == REFERENCETYPE) defined.insert(n.id);
            }
        }
        bool r = l.sort();
        if(!r) { mc::fail("sort-fails", "sort failed"); return; }
        int errs = l.errors();
        if((size_t)errs + 1 < defs.size()) { mc::fail("not-reported", mc::fmt("%zu definitions, but only %d error messages", defs.size(), errs)); return; }
        std::string got = core::dumpAll(l), want;
        bool ok = false, okOrder = true;
        for(size_t k = 0; k < defs.size() && !ok; k++) {
            if(!unknown && k > 0) break;
            Oracle o;
            for(size_t f = 0; f < docs.size(); f++) {
                Doc d = docs[f]; d.nodes.clear();
                for(size_t i = 0; i < docs[f].nodes.size(); i++)
                    if(docs[f].nodes[i].id != DUP || (defs[k].first == f && defs[k].second == i)) d.nodes.push_back(docs[f].nodes[i]);
                o.import(d, [&](const std::string &u) { return l.ns.get(u); });
            }
            o.sort();
            std::vector<std::string> v;
            for(auto &s : o.dumps) v.push_back(*s.begin());
            std::sort(v.begin(), v.end());
            std::string e; for(auto &s : v) e += s + "\n";
            if(want.empty()) want = e;
            if(e == got) {
                ok = true;
                if(!core::compareNodes(l, o)) okOrder = false;      // order and classes
            }
        }
        (void)okOrder;
        mc::state(got);
        mc::validated();
        if(!ok) mc::fail(unknown ? "no-definition-intact" : "not-the-first", "delivered:\n" + got + "expected:\n" + want);
    });
}
// 2..3 definitions (classes, contents, references over known and later defined types) between bystanders
static Node variant(int v, int i) {
    static const int CL[] = {OBJECT, OBJECT, VARIABLE, REFERENCETYPE, DATATYPE, METHOD, OBJECTTYPE, VIEW, VARIABLETYPE};
    Node n = node(CL[v], DUP, mc::fmt("1:Def%d", i));
    n.dn = txt(mc::fmt("display %d", i));
    if(v == 0) n.refs = {ref("i=47", "ns=1;i=60", false), ref("i=40", "i=61")};
    if(v == 1) n.refs = {ref("ns=1;i=901", "ns=1;i=61", false)};
    if(v == 2) { n.hasValue = true; n.value = {elem("Int32", mc::fmt("%d", i))}; n.refs = {ref("i=46", mc::fmt("ns=1;i=%d", 60 + i), false)}; n.attrs = {{"DataType", "ns=1;s=type"}}; }
    if(v == 3) n.refs = {ref("i=45", "i=47", false)};
    if(v == 4) { n.def.present = true; n.def.fields = {{{{"Name", mc::fmt("f%d", i)}}}}; }
    if(v == 5) n.attrs = {{"ParentNodeId", "ns=1;i=60"}};
    if(v == 6) { n.refs = {ref("i=45", "i=58", false)}; n.desc = txt("text"); }
    if(v == 7) n.refs = {ref("i=35", "ns=1;i=70")};
    if(v == 8) n.refs = {ref("i=41", "i=2041")};
    return n;
}
static void placements() {
    int k = mc::by_tier(2, 3);
    std::vector<Node> v;
    Node a = node(OBJECT, "ns=1;i=60", "1:A"), b = node(VARIABLE, "ns=1;i=61", "1:B"), t = node(REFERENCETYPE, "ns=1;i=901", "1:T"), c = node(OBJECT, "ns=1;i=70", "1:C");
    a.refs = {ref("i=35", "i=85", false)}; b.refs = {ref("i=47", "ns=1;i=60", false), ref("ns=1;i=901", "ns=1;i=71")}; t.refs = {ref("i=45", "i=47", false)};
    c.refs = {ref("i=47", DUP, false)};
    int vars[3];
    bool types = false;
    for(int i = 0; i < k; i++) { vars[i] = mc::choose(9, "definition"); if(vars[i] == 3) types = true; }
    // a child of a node below it would be a cycle: C hangs below the duplicate, so only non-View definitions may be combined with it
    v = {a, b, t};
    bool view = false; for(int i = 0; i < k; i++) if(vars[i] == 7) view = true;
    if(!view) v.push_back(c);
    (void)types;
    for(int i = 0; i < k; i++) v.insert(v.begin() + mc::choose((int)v.size() + 1, "position"), variant(vars[i], i));
    int idx = 0;
    for(auto &n : v) if(n.id == DUP) { n.bn = mc::fmt("1:Def%d", idx++); }
    Doc d = base(); d.nodes = v;
    judge({d});
}
static void files() {
    int v1 = mc::choose(9, "first"), v2 = mc::choose(9, "second");
    int where = mc::choose(3, "where");                        // 0|1, 0|2, 1|2
    int third = mc::choose(mc::by_tier(1, 10), "third");
    Node a = node(OBJECT, "ns=1;i=60", "1:A"), t = node(REFERENCETYPE, "ns=1;i=901", "1:T");
    t.refs = {ref("i=45", "i=32", false)};
    std::vector<Doc> docs(3, base());
    docs[mc::choose(3, "type in")].nodes.push_back(t);
    docs[1].nodes.push_back(a);
    docs[where == 2 ? 1 : 0].nodes.push_back(variant(v1, 1));
    docs[where == 0 ? 1 : 2].nodes.push_back(variant(v2, 2));
    if(third) docs[2].nodes.push_back(variant(third - 1, 3));
    judge(docs);
}
// many duplicates; duplicates of identifiers of all kinds
static void many() {
    static const std::vector<int> N = {2, 3, 10, 101, 127, 128, 255, 256, 257};
    int n = mc::pick(N, "count"), cls = mc::choose(NCLS, "class");
    int other = mc::choose(3, "other");
    Doc d = base();
    for(int i = 0; i < n; i++) {
        Node x = node(other == 1 && i % 2 ? (cls + 1) % NCLS : cls, DUP, mc::fmt("1:N%d", i));
        x.refs = {ref("i=41", mc::fmt("ns=1;i=%d", i)), ref(other == 2 ? "i=45" : "i=35", mc::fmt("ns=1;i=%d", 1000 + i), false)};
        d.nodes.push_back(x);
        d.nodes.push_back(node((i * 3) % NCLS, mc::fmt("ns=1;s=by%d", i), "1:By"));
    }
    judge({d});
}
// the duplicate is defined again after a sort
static void afterSort() {
    int v1 = mc::choose(9, "first"), v2 = mc::choose(9, "second");
    if(v1 == 1 || v2 == 1) return;
    core::checkLeak([&] {
        core::Loader l; Oracle o;
        Doc d = base(); d.nodes = {variant(v1, 1)};
        Doc e = base(); e.nodes = {variant(v2, 2), node(OBJECT, "ns=1;i=60", "1:A")};
        if(!l.importXml(xml(d), nullptr, 0) || !l.sort() || !l.importXml(xml(e), nullptr, 1)) { mc::fail("fails", "import or sort failed"); return; }
        int errs = l.errors();
        bool r = l.sort();
        if(errs < 1) mc::fail("not-reported", "no error message for the second definition");
        Doc e2 = base(); e2.nodes = {e.nodes[1]};
        o.import(d, [&](const std::string &u) { return l.ns.get(u); });
        o.import(e2, [&](const std::string &u) { return l.ns.get(u); });
        o.sort();
        core::compare(l, o, r);
    });
}
int main(int argc, char **argv) {
    mc::scenario("placements", placements);
    mc::scenario("files", files);
    mc::scenario("many", many);
    mc::scenario("after-sort", afterSort);
    return mc::run(argc, argv, {"C09", "up to 3 (mass: 101) definitions of one NodeId in up to 3 files with bystanders"});
}
