// C18: HasEncoding relations of binary encodings are all reported
#include <algorithm>
#include "core.hpp"
using namespace model;

static const std::vector<std::string> BN = {"Default Binary", "1:Default Binary", "2:Default Binary", "Default XML", "default binary", "Default Binary ", "Default", "1:Default Binary2", "Default Binary:", "x:Default Binary"};
static const std::vector<std::string> TYPE = {"i=38", "HasEncoding", "Alias38", "i=39", "ns=1;i=38", "i=35", "ns=0;i=38", "s=38"};
static const std::vector<std::string> TARGET = {"ns=1;i=5", "i=12", "ns=2;s=some type", "ns=1;g=00000001-0002-0003-0405-060708090a0b", "ns=1;b=AQID", "TargetAlias", "ns=1;i=1", "ns=3;i=4"};
static Doc base() {
    Doc d; d.uris = {"u:a", "u:b"};
    d.aliases = {{"HasEncoding", "i=38"}, {"Alias38", "i=38"}, {"TargetAlias", "ns=2;i=6"}};
    return d;
}
static std::string key(const std::vector<Bidi> &v) {
    std::vector<std::string> k;
    for(auto &x : v) k.push_back(x.source + " " + x.target + " " + x.type);
    std::sort(k.begin(), k.end());
    std::string r;
    for(auto &s : k) r += "[" + s + "]";
    return r;
}
// compares the list after every step of the history: new, imports, sort, sort
static void history(const std::vector<Doc> &docs, const std::vector<std::map<std::string, int>> &ns) {
    core::checkLeak([&] {
        core::Loader l; Oracle o;
        auto cmp = [&](const char *when) {
            std::string a = key(l.bidi()), b = key(o.bidi);
            mc::state(a); mc::validated();
            if(a != b) mc::fail("entries", std::string(when) + ": delivered " + a + " expected " + b);
        };
        cmp("before any import");
        for(size_t i = 0; i < docs.size(); i++) {
            core::NsTable t = l.ns;
            if(i < ns.size()) { t.idx = ns[i]; t.next = 20; }
            std::string x = xml(docs[i]);
            if(mc::want_sample()) mc::sample(x);
            if(!l.importXml(x, &t, (int)i)) { mc::fail("import-fails", "importFile returned false for a well-formed file"); return; }
            o.import(docs[i], [&](const std::string &u) { return t.get(u); });
            cmp("after import");
        }
        o.sort();
        bool r = l.sort();
        if(r != o.sortOk) { mc::fail("sort", mc::fmt("sort returned %d", r)); return; }
        cmp("after sort");
        if(r) { if(!core::compareNodes(l, o)) return; }
        l.deliver();
        cmp("after iteration");
        l.sort();
        cmp("after sorting again");
    });
}
static Node enc(int i, int cls, const std::string &bn) { Node n = node(cls, "ns=1;i=" + std::to_string(i), bn); return n; }
static void oneNode() {
    Doc d = base();
    static const std::vector<std::string> ID = {"ns=1;i=1", "ns=2;s=enc id", "ns=1;g=00000001-0002-0003-0405-060708090a0c", "ns=1;b=AQIDBA==", "i=70001"};
    Node n = enc(1, mc::choose(NCLS, "class"), mc::pick(BN, "browse name"));
    n.id = n.cls == OBJECT || mc::tier() ? mc::pick(ID, "id") : ID[0];
    static const std::vector<std::string> FWD = {"false", "0", "true", "1", ""};
    std::string f = mc::pick(FWD, "IsForward");
    Ref r = ref(mc::pick(TYPE, "type"), mc::pick(TARGET, "target"));
    if(!f.empty()) { r.hasFwd = true; r.fwd = f; }
    n.refs = {r};
    d.nodes = {n};
    std::vector<std::map<std::string, int>> ns;
    int m = mc::choose(3, "namespaces");
    if(m == 1) ns = {{{"u:a", 7}, {"u:b", 3}}};
    if(m == 2) ns = {{{"u:a", 2}, {"u:b", 1}}};
    history({d}, ns);
}
static Ref choice() {
    switch(mc::choose(mc::by_tier(6, 7), "reference")) {
    case 0: return ref("i=38", "ns=1;i=5", false);
    case 1: return ref("HasEncoding", "ns=2;s=t", false);
    case 2: return ref("i=38", "ns=1;i=5", true);
    case 3: return ref("i=40", "i=76");
    case 4: return ref("i=47", "ns=1;i=77", false);
    case 5: return ref("ns=1;i=38", "ns=1;i=5", false);
    default: return ref("Alias38", "TargetAlias", false);
    }
}
static void severalNodes() {
    Doc d = base();
    static const std::vector<int> B = {0, 1, 3};
    int n = mc::by_tier(2, 3);
    for(int i = 0; i < n; i++) {
        Node x = enc(i + 1, i == 0 && mc::flag("class") ? DATATYPE : OBJECT, BN[mc::pick(B, "browse name")]);
        int k = mc::choose(i == 2 ? 2 : 3, "references");
        for(int j = 0; j < k; j++) x.refs.push_back(choice());
        d.nodes.push_back(x);
    }
    history({d}, {});
}
// the type and its encodings as nodesets write them, in every order, with forward references of the type,
// with failing sorts (cycle, undefined reference type)
static void typical() {
    Doc d = base();
    Node t = node(DATATYPE, "ns=1;i=5", "1:T"), b = node(OBJECT, "ns=1;i=6", mc::flag("ns") ? "1:Default Binary" : "Default Binary"), x = node(OBJECT, "ns=1;i=7", "Default XML");
    t.refs = {ref("i=45", "i=22", false)};
    if(mc::flag("forward from type")) { t.refs.push_back(ref("i=38", "ns=1;i=6")); t.refs.push_back(ref("i=38", "ns=1;i=7")); }
    b.refs = {ref("i=40", "i=76"), ref("i=38", "ns=1;i=5", false), ref("i=39", "ns=1;i=8")};
    x.refs = {ref("HasEncoding", "ns=1;i=5", false), ref("i=40", "i=76")};
    if(mc::flag("reversed")) std::reverse(b.refs.begin(), b.refs.end());
    int k = mc::choose(4, "trouble");
    if(k == 1) b.refs.push_back(ref("i=47", "ns=1;i=6"));
    if(k == 2) { x.refs.push_back(ref("i=47", "ns=1;i=6")); b.refs.push_back(ref("i=47", "ns=1;i=7")); }
    if(k == 3) b.refs.insert(b.refs.begin() + mc::choose(4, "position"), ref("ns=1;i=999", "ns=1;i=5", false));
    std::vector<Node> v = {t, b, x};
    std::vector<int> p = {0, 1, 2};
    for(int i = mc::choose(6, "order"); i > 0; i--) std::next_permutation(p.begin(), p.end());
    int split = mc::choose(4, "files");
    std::vector<Doc> ds(2, base());
    for(int i = 0; i < 3; i++) ds[i >= split].nodes.push_back(v[p[i]]);
    history(ds, {});
}
static void many() {
    static const std::vector<int> N = {1, 2, 10, 100, 127, 128, 255, 256, 257, 1001, 10001, 65535, 65536, 65537};
    mc::slow(60);
    Doc d = base();
    int n = mc::pick(N, "encodings");
    bool same = mc::flag("in one node");
    if(same) { Node b = node(OBJECT, "ns=1;s=enc", "Default Binary"); for(int i = 0; i < n; i++) b.refs.push_back(ref("i=38", "ns=1;i=" + std::to_string(i + 10), false)); d.nodes = {b}; }
    else for(int i = 0; i < n; i++) { Node b = node(OBJECT, "ns=1;s=enc" + std::to_string(i), "Default Binary"); b.refs = {ref("i=38", "ns=1;i=" + std::to_string(i + 10), false)}; d.nodes.push_back(b); }
    history({d}, {});
}
int main(int argc, char **argv) {
    mc::scenario("one-node", oneNode);
    mc::scenario("several-nodes", severalNodes);
    mc::scenario("typical", typical);
    mc::scenario("many", many);
    return mc::run(argc, argv, {"C18", "all single encodings over class, browse name, type spelling, direction, target and namespace answers; all pairs (thorough: triples) of nodes with up to 2 references; type/encoding triples in all orders and file splits with failing sorts"});
}
