// C02: every node element is delivered exactly once, in its class
#include "core.hpp"
using namespace model;

static Doc base() { Doc d; d.uris = {"http://a/"}; return d; }
// like core::full, and nothing may be delivered before sort; the caller's context has to be passed through
static void run(const std::vector<Doc> &docs) {
    core::checkLeak([&] {
        core::Loader l; Oracle o;
        for(size_t i = 0; i < docs.size(); i++) {
            std::string x = xml(docs[i]);
            if(mc::want_sample()) mc::sample(x.substr(0, 2000));
            if(!l.importXml(x, nullptr, (int)i)) { mc::fail("import-fails", "importFile returned false for a well-formed file"); return; }
            o.import(docs[i], [&](const std::string &u) { return l.ns.get(u); });
            for(auto &c : l.deliver()) if(!c.second.empty()) { mc::fail("before-sort", "a node is delivered before sort: " + c.second[0].id); return; }
        }
        o.sort();
        bool r = l.sort();
        if(!core::compare(l, o, r)) return;
        // a second iteration delivers the same
        std::string a = core::dumpAll(l), b = core::dumpAll(l);
        if(a != b) mc::fail("iteration-changes", "two iterations deliver different nodes");
    });
}
// sequences of node elements of all classes, with references between them
static void mixes() {
    Doc d = base();
    int n = mc::choose(mc::by_tier(4, 5), "count") + 1;
    int pattern = mc::choose(4, "references");
    for(int i = 0; i < n; i++) {
        Node x = node(mc::choose(NCLS, "class"), mc::fmt("ns=1;i=%d", i + 1), mc::fmt("1:N%d", i));
        if(pattern == 1 && i > 0) x.refs.push_back(ref("i=35", mc::fmt("ns=1;i=%d", i), false));      // child of the previous
        if(pattern == 2 && i + 1 < n) x.refs.push_back(ref("i=35", mc::fmt("ns=1;i=%d", i + 2), false));   // child of the next
        if(pattern == 3) { x.refs.push_back(ref("i=35", mc::fmt("ns=1;i=%d", 100 + i), i % 2)); x.refs.push_back(ref("i=41", "ns=1;i=200")); }   // undefined targets
        d.nodes.push_back(x);
    }
    run({d});
}
// the same, spread over files and with identifiers of all kinds
static void identifiers() {
    static const std::vector<std::string> IDS = {"i=5", "ns=1;i=5", "ns=1;i=6", "ns=1;s=5", "ns=1;s=", "ns=1;s=a", "ns=1;s=A", "ns=1;s=ab", "ns=1;g=09087e75-8e5e-499b-954f-f2a9603db28a",
        "ns=1;g=09087e75-8e5e-499b-954f-f2a9603db28b", "ns=1;b=YWI=", "ns=1;b=YQ==", "s=5", "ns=2;i=5", "ns=2;s=a", "ns=1;i=4294967295"};
    int a = mc::choose((int)IDS.size(), "id"), b = mc::choose((int)IDS.size(), "id"), c = mc::choose((int)IDS.size(), "id");
    if(a == b || b == c || a == c) return;
    Doc d = base(); d.uris.push_back("http://b/");
    int k = 0;
    int cls = mc::choose(3, "classes");
    for(int i : {a, b, c}) { d.nodes.push_back(node(cls == 0 ? OBJECT : cls == 1 ? (k % 2 ? VARIABLE : OBJECT) : (k * 3) % NCLS, IDS[i], "1:N")); k++; }
    if(mc::tier() && mc::flag("two files")) { Doc e = d; e.nodes.erase(e.nodes.begin(), e.nodes.begin() + 1); d.nodes.resize(1); run({d, e}); }
    else run({d});
}
// numbers of nodes around every container size
static void counts() {
    mc::slow(120);
    static const std::vector<int> Q = {0, 1, 2, 9, 10, 11, 19, 20, 21, 30, 31, 99, 100, 101, 199, 200, 201, 301, 999, 1000, 1001, 2001, 9999, 10000, 10001};
    static const std::vector<int> T = {20000, 20001, 30001};
    int c = mc::choose(NCLS, "class");
    int k = mc::choose((int)Q.size() + (mc::tier() ? (int)T.size() : 0), "count");
    int n = k < (int)Q.size() ? Q[k] : T[k - Q.size()];
    Doc d = base();
    for(int i = 0; i < n; i++) d.nodes.push_back(node(c, mc::fmt("ns=1;i=%d", i + 1), mc::fmt("1:N%d", i)));
    int other = mc::choose(2, "others");
    if(other) for(int i = 0; i < 3 * NCLS; i++) d.nodes.insert(d.nodes.begin() + (i * 7) % (d.nodes.size() + 1), node(i % NCLS, mc::fmt("ns=1;s=o%d", i), "1:O"));
    if(mc::tier() && mc::flag("halves")) { Doc e = d; e.nodes.erase(e.nodes.begin(), e.nodes.begin() + n / 2); d.nodes.resize(n / 2); run({d, e}); }
    else run({d});
}
// nodes that have to wait for a reference type defined later
static void waiting() {
    mc::slow(120);
    static const std::vector<int> N = {0, 1, 2, 3, 98, 99, 100, 101, 102, 199, 200, 201, 301};
    int n = mc::pick(N, "count");
    int c = mc::choose(NCLS, "class");
    Doc d = base();
    for(int i = 0; i < n; i++) {
        Node x = node(c, mc::fmt("ns=1;i=%d", i + 1), "1:N");
        x.refs.push_back(ref("ns=1;i=90000", mc::fmt("ns=1;i=%d", i ? i : 99999), false));
        d.nodes.push_back(x);
        if(i % 3 == 0) d.nodes.push_back(node(OBJECT, mc::fmt("ns=1;s=p%d", i), "1:P"));
    }
    Node t = node(REFERENCETYPE, "ns=1;i=90000", "1:T");
    t.refs.push_back(ref("i=45", mc::flag("hierarchical") ? "i=33" : "i=32", false));
    d.nodes.insert(mc::flag("first") ? d.nodes.begin() : d.nodes.end(), t);
    run({d});
}
// iterations inside of the callbacks of an iteration, of the same and of another class
struct Iter { core::Loader *l; int cls[3]; int when, depth; std::map<int, std::vector<std::string>> *want; size_t calls; };
static void iterate(Iter &it, int depth);
struct IterCall { Iter *it; int depth; std::vector<std::string> got; };
static void iterCb(void *c, NL_Node *n) {
    mc::OutLib o;
    IterCall *k = (IterCall *)c;
    k->got.push_back(core::nid(&n->id));
    if(k->got.size() > 1000) return;
    size_t total = (*k->it->want)[k->it->cls[k->depth]].size(), i = k->got.size() - 1;
    if(k->depth + 1 < k->it->depth && (k->it->when == 2 || (k->it->when == 0 ? i == 0 : i + 1 == total))) iterate(*k->it, k->depth + 1);
}
static void iterate(Iter &it, int depth) {
    if(mc::failed()) return;
    IterCall k{&it, depth, {}};
    size_t r;
    { mc::InLib in; r = NodesetLoader_forEachNode(it.l->l, (NL_NodeClass)it.cls[depth], &k, iterCb); }
    it.calls++;
    if(mc::failed()) return;
    auto &w = (*it.want)[it.cls[depth]];
    if(r != w.size() || k.got != w) mc::fail("nested-iteration", mc::fmt("an iteration at depth %d delivers %zu nodes and returns %zu, alone it delivers %zu", depth, k.got.size(), r, w.size()));
}
static void nested() {
    static const std::vector<int> N = {0, 1, 2, 5, 12};
    int a = mc::choose(NCLS, "outer"), b = mc::choose(NCLS, "inner"), na = mc::pick(N, "count"), nb = a == b ? na : mc::pick(N, "inner count"), when = mc::choose(3, "when"), depth = 2 + mc::choose(mc::by_tier(1, 2), "depth");
    Doc d = base();
    for(int i = 0; i < na; i++) d.nodes.push_back(node(a, mc::fmt("ns=1;i=%d", i + 1), "1:N"));
    if(a != b) for(int i = 0; i < nb; i++) d.nodes.push_back(node(b, mc::fmt("ns=1;i=%d", i + 101), "1:N"));
    core::checkLeak([&] {
        core::Loader l;
        if(!l.importXml(xml(d)) || !l.sort()) { mc::fail("import-fails", "a well-formed file is refused"); return; }
        std::map<int, std::vector<std::string>> want;
        size_t sum = 0;
        for(auto &c : l.deliver()) for(auto &x : c.second) { want[c.first].push_back(x.id); sum++; }
        if(sum != d.nodes.size()) { mc::fail("count", "nodes are missing"); return; }
        Iter it{&l, {a, b, a}, when, depth, &want, 0};
        iterate(it, 0);
        mc::state(mc::fmt("%d %d %zu", na, nb, it.calls)); mc::validated();
    });
}
int main(int argc, char **argv) {
    mc::scenario("mixes", mixes);
    mc::scenario("identifiers", identifiers);
    mc::scenario("counts", counts);
    mc::scenario("waiting", waiting);
    mc::scenario("nested", nested);
    return mc::run(argc, argv, {"C02", "node counts up to 30001, sequences of up to 5 node elements, as enumerated in checks/C02.cpp"});
}
